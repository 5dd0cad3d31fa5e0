//! Which of very many searches TLC should look at.
//!
//! A sweep searches far more pictures than TLC can validate.  The recorder
//! applies the contracts of spec/TSearch.tla itself, only to choose: every
//! search that looks wrong to it is written to the trace, where TLC decides.

use crate::scene::{Drawn, Scene};
use crate::search::{Found, Outcome, Runs};

/// The finder machine of spec/Finder.tla: root runs of the claimed rings.
pub fn claimed(r: &Runs) -> Vec<usize> {
    let n = r.lab.len();
    let (row, first, size) = (|i: usize| r.bl[3 * i], |i: usize| r.bl[3 * i + 1], |i: usize| r.bl[3 * i + 2]);
    let mut cl: Vec<usize> = vec![];
    for i in 2..n {
        if row(i - 2) != row(i) {
            continue;
        }
        let g1 = first(i - 1) - first(i - 2) - size(i - 2);
        let g2 = first(i) - first(i - 1) - size(i - 1);
        let avg = (size(i - 2) + g1 + g2 + size(i)) / 4;
        let err = avg * 3 / 4;
        let near = |l: i64, k: i64| l >= k * avg - err && l <= k * avg + err;
        if !(near(size(i - 2), 1) && near(g1, 1) && near(size(i - 1), 3) && near(g2, 1) && near(size(i), 1)) {
            continue;
        }
        let (ring, stone) = (r.lab[i] as usize - 1, r.lab[i - 1] as usize - 1);
        let ratio = r.ar[stone] * 100 / r.ar[ring];
        if r.lab[i - 2] == r.lab[i] && stone != ring && 10 < ratio && ratio < 70 && !cl.contains(&ring) && !cl.contains(&stone) {
            cl.push(ring);
        }
    }
    cl.sort_unstable();
    cl
}

fn same_ink(r: &Runs, q: &[i64]) -> bool {
    q.len() / 4 == r.lab.len() && q.chunks(4).zip(r.bl.chunks(3)).all(|(a, b)| a[..3] == *b)
}
fn whole(r: &Runs, q: &[i64]) -> bool {
    (0..r.lab.len()).all(|i| q[4 * i + 3] == q[4 * (r.lab[i] as usize - 1) + 3])
}
fn shaded(r: &Runs, q: &[i64], s: i64) -> Vec<usize> {
    (0..r.lab.len()).filter(|&i| r.dep[i] == 0 && q[4 * i + 3] == s).collect()
}

fn near_corner(s: &Drawn, x: i64, y: i64, cu: i64, cv: i64) -> bool {
    let (x, y) = (2 * x + 1, 2 * y + 1);
    let m = &s.map;
    let d = m[6] * x + m[7] * y + m[8];
    d > 0 && (m[0] * x + m[1] * y + m[2] - cu * d).abs() <= 2 * d && (m[3] * x + m[4] * y + m[5] - cv * d).abs() <= 2 * d
}
fn reports(s: &Drawn, g: &Found) -> bool {
    let n = s.mat.n as i64;
    let b = &g.bounds;
    g.n == s.mat.n
        && g.bits == s.mat.bits
        && g.res == "Ok"
        && g.out == s.data
        && near_corner(s, b[0], b[1], 0, 0)
        && near_corner(s, b[2], b[3], n, 0)
        && near_corner(s, b[4], b[5], n, n)
        && near_corner(s, b[6], b[7], 0, n)
}

/// Does any contract asked for look broken?
pub fn odd(ask: &[&str], r: &Runs, o: &Outcome, sc: Option<&Scene>) -> bool {
    let cl = claimed(r);
    ask.iter().any(|&c| match c {
        "white" => !same_ink(r, &o.after),
        "whole" => !(same_ink(r, &o.after) && whole(r, &o.after) && same_ink(r, &o.after2) && whole(r, &o.after2)),
        "align" => {
            !same_ink(r, &o.after) || {
                let a = shaded(r, &o.after, 3);
                a.iter().any(|x| cl.contains(x)) || 3 * a.len() > cl.len() || !shaded(r, &o.after, 4).is_empty()
            }
        }
        "claimed" => !same_ink(r, &o.after) || shaded(r, &o.after, 2) != cl,
        "few" => 3 * o.grids.len() > cl.len(),
        "again" => !(o.again.is_empty() && same_ink(r, &o.after2) && shaded(r, &o.after2, 2) == cl),
        "clone" => o.clone != o.grids || !o.untouched,
        "untouched" => !o.untouched,
        "late" => o.late != o.again,
        "buffer" => o.buffer != o.grids || o.buffer_after != o.after,
        "grey" => o.grey != o.grids || o.grey_after != o.after || o.grey_buffer != o.grids || o.grey_buffer_after != o.after,
        "found" => {
            let sc = sc.unwrap();
            cl.len() == 3 * sc.symbols.len()
                && (o.grids.len() != sc.symbols.len() || !sc.symbols.iter().all(|s| o.grids.iter().any(|g| reports(s, g))))
        }
        _ => true,
    })
}

