//! Suites about what is read off a grid before any decoding: format
//! information, the raw bit stream, grid snapshots, the version/size relation.

use crate::ctx::{hash, par, Ctx};
use crate::dec;
use crate::enc::{self, Grid};
use crate::json;
use crate::rng::Rng;
use crate::run;

/// Result of reading the format: data bits, -1 FormatEcc, -2 InvalidVersion,
/// -9 anything else.
fn code(r: &run::RawRec) -> i64 {
    match r.res.as_str() {
        "Ok" => r.meta.e * 8 + r.meta.m,
        "FormatEcc" => -1,
        "InvalidVersion" => -2,
        _ => -9,
    }
}

/// Grid of side n with the two copies; the rest is noise.
fn with_words(r: &mut Rng, n: usize, w1: u16, w2: u16) -> Grid {
    let mut g = Grid::new(n);
    for b in g.bits.iter_mut() {
        *b = r.below(2) as u8;
    }
    enc::set_format(&mut g, 0, w1);
    enc::set_format(&mut g, 1, w2);
    g
}

fn dist_min(w: u16) -> u32 {
    (0..32).map(|d| (enc::format_word(d / 8, d % 8) ^ w).count_ones()).min().unwrap()
}

/// Format information: all 2^15 words in either copy.
pub fn format(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let words: Vec<u16> = (0..32).map(|d| enc::format_word(d / 8, d % 8)).collect();
    let unreadable: Vec<u16> = (0..1u16 << 15).filter(|&w| dist_min(w) > 3).collect();
    let mut pairs: Vec<(usize, u16, u16)> = vec![];
    let mut r = Rng::for_case(seed, "format", 0);
    // copy 1 takes every value, copy 2 is some format word
    for w in 0..1u16 << 15 {
        pairs.push((21, w, *r.pick(&words)));
    }
    // copy 1 unreadable, copy 2 takes every value
    for w in 0..1u16 << 15 {
        pairs.push((21, *r.pick(&unreadable), w));
    }
    // every version, both copies at every distance
    for v in 1..=40 {
        for _ in 0..ctx.amount(150, 2000) {
            let near = |r: &mut Rng| {
                let mut w = *r.pick(&words);
                let k = r.below(8);
                for i in r.distinct(k, 15) {
                    w ^= 1 << i;
                }
                if r.chance(1, 4) { *r.pick(&unreadable) } else { w }
            };
            let (a, b) = (near(&mut r), near(&mut r));
            pairs.push((enc::size_of(v), a, b));
        }
    }
    let n = ctx.amount(0, 400_000);
    for _ in 0..n {
        pairs.push((enc::size_of(r.range(1, 6)), r.below(1 << 15) as u16, r.below(1 << 15) as u16));
    }
    let out = {
        let cx = &*ctx;
        par(pairs.len(), |w, k| {
            let (n, w1, w2) = pairs[k];
            let mut r = Rng::for_case(seed, "format-grid", k as u64);
            let g = with_words(&mut r, n, w1, w2);
            cx.begin(w, || format!("{{\"case\":\"format-{k}\",\"n\":{n},\"w1\":{w1},\"w2\":{w2}}}"));
            let a = run::raw(&g);
            cx.end(w);
            a
        })
    };
    for (k, a) in out.iter().enumerate() {
        let (n, w1, w2) = pairs[k];
        let line = format!("{{\"id\":\"fmt-{k}\",\"n\":{n},\"w1\":{w1},\"w2\":{w2},\"v\":{},\"r\":{}}}", a.meta.v, code(a));
        if let Some(p) = &a.panic {
            ctx.violation(&format!("reading the format panicked: {p}"), line.clone());
        }
        if a.oob {
            ctx.violation("grid read outside its bounds", line.clone());
        }
        ctx.eval(hash(&(n, w1, w2)));
        ctx.count(if code(a) >= 0 { "read" } else { "unreadable" }, 1);
        if k % 9001 == 77 {
            ctx.sample(format!("{{\"size\":{n},\"copy1\":{w1},\"copy2\":{w2},\"format\":{}}}", code(a)));
        }
        ctx.emit(&line, 1);
    }
}

/// Whole symbols with damaged format copies, straight and mirrored, decoded.
pub fn format_symbols(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let unreadable: Vec<u16> = (0..1u16 << 15).filter(|&w| dist_min(w) > 3).collect();
    let n = ctx.amount(640, 6000);
    dec::record(ctx, n, |k| {
        let mut r = Rng::for_case(seed, "fmtsym", k as u64);
        let (e, m) = (k / 8 % 4, k % 8);
        let v = if k < 160 { k / 4 + 1 } else { r.range(1, 5) };
        let segs = enc::random_segs(&mut r, v, e, 60, &[1, 2, 4]);
        let mut g = enc::symbol(v, e, m, &enc::fill(v, e, &segs)).grid;
        let hurt = |r: &mut Rng, g: &mut Grid, copy: usize, k: usize| {
            let cells = enc::format_cells(g.n, copy);
            for i in r.distinct(k, 15) {
                g.flip(cells[i].0, cells[i].1);
            }
        };
        let mut want = Some((enc::payload(&segs), "Ok"));
        let note;
        match k % 4 {
            0 => {
                let (a, b) = (r.range(1, 3), r.range(0, 15));
                hurt(&mut r, &mut g, 0, a);
                hurt(&mut r, &mut g, 1, b);
                note = format!("{a} errors in copy 1, {b} in copy 2");
            }
            1 => {
                enc::set_format(&mut g, 0, *r.pick(&unreadable));
                let b = r.range(0, 3);
                hurt(&mut r, &mut g, 1, b);
                note = format!("copy 1 unreadable, {b} errors in copy 2");
            }
            2 => {
                enc::set_format(&mut g, 0, *r.pick(&unreadable));
                enc::set_format(&mut g, 1, *r.pick(&unreadable));
                want = None;
                note = "both copies unreadable".into();
            }
            _ => {
                let (a, b) = (r.range(0, 7), r.range(0, 7));
                hurt(&mut r, &mut g, 0, a);
                hurt(&mut r, &mut g, 1, b);
                want = None;
                note = format!("{a} errors in copy 1, {b} in copy 2");
            }
        }
        if r.chance(1, 4) {
            g = g.transposed();
            want = None;
        }
        let mut c = dec::Case::new(format!("fmtsym-{k}-v{v}e{e}m{m}"), g);
        c.want = want;
        c.note = note;
        c.string = false;
        c
    });
}

struct Snap {
    size: usize,
    bits: Vec<u8>,
}

/// Raw bit streams and grid snapshots.
pub fn raw(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let n = ctx.amount(1000, 6000);
    let out = {
        let cx = &*ctx;
        par(n, |w, k| {
            let mut r = Rng::for_case(seed, "raw", k as u64);
            let v = if k < 320 { k % 40 + 1 } else { r.range(1, 9) };
            let n = if k >= 320 && k % 10 == 0 { *r.pick(&[0usize, 1, 8, 9, 16, 20, 181, 184, 200]) } else { enc::size_of(v) };
            let mut g = Grid::new(n);
            let dens = *r.pick(&[50usize, 50, 10, 90, 0, 100]);
            for b in g.bits.iter_mut() {
                *b = r.chance(dens, 100) as u8;
            }
            if n >= 21 {
                let e = r.below(4);
                let m = r.below(8);
                match k % 8 {
                    // noise, whatever format it happens to carry
                    7 => {}
                    6 => enc::set_format(&mut g, 1, enc::format_word(e, m)),
                    _ => enc::set_format(&mut g, 0, enc::format_word(e, m)),
                }
            }
            let id = format!("raw-{k}-n{n}");
            cx.begin(w, || format!("{{\"case\":{}}}", json::string(&id)));
            // half of the cases go through a SimpleGrid snapshot
            let (a, snap) = if k % 2 == 0 {
                (run::raw(&g), None)
            } else {
                let sg = run::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let s = rqrr::SimpleGrid::from_func(g.n, |x, y| g.get(y, x));
                    use rqrr::BitGrid;
                    let size = s.size();
                    let mut bits = vec![];
                    if size <= 400 {
                        for y in 0..size {
                            for x in 0..size {
                                bits.push(s.bit(y, x) as u8);
                            }
                        }
                    }
                    (Snap { size, bits }, s)
                }));
                match sg {
                    Ok((snap, s)) => (run::raw_of(s), Some(snap)),
                    Err(p) => {
                        let mut a = run::raw(&g);
                        a.panic = Some(run::panic_text(p));
                        (a, None)
                    }
                }
            };
            cx.end(w);
            let (sn, sb) = match &snap {
                Some(s) => (s.size as i64, json::nums(&s.bits)),
                None => (-1, "[]".into()),
            };
            let line = format!(
                "{{\"id\":{},\"n\":{},\"g\":{},\"res\":\"{}\",\"v\":{},\"e\":{},\"m\":{},\"len\":{},\"d\":{},\"dirty\":{},\"sn\":{},\"sb\":{}}}",
                json::string(&id), n, json::nums(&g.bits), a.res, a.meta.v, a.meta.e, a.meta.m, a.len, json::nums(&a.data), a.dirty, sn, sb
            );
            let bad = match (&a.panic, a.oob) {
                (Some(p), _) => Some(format!("get_raw_data panicked: {p}")),
                (_, true) => Some("grid read outside its bounds".to_string()),
                _ => None,
            };
            (line, n, bad, a.res, a.len, hash(&g.bits))
        })
    };
    for (line, n, bad, res, len, h) in out {
        if let Some(b) = bad {
            ctx.violation(&b, line.clone());
        }
        ctx.eval(h);
        ctx.count(&format!("result_{res}"), 1);
        ctx.sample(format!("{{\"size\":{n},\"result\":\"{res}\",\"bits\":{len}}}"));
        ctx.emit(&line, (n * n) as u64 + 200);
    }
    // the version/size relation, and pushing bits one by one
    for n in (0..400usize).chain([1 << 20, usize::MAX]) {
        let r = run::catch_unwind(|| rqrr::Version::from_size(n));
        let v = match r {
            Ok(Ok(v)) => v.0 as i64,
            Ok(Err(e)) if e == rqrr::DeQRError::InvalidVersion => -1,
            Ok(Err(_)) => -2,
            Err(p) => {
                ctx.violation(&format!("Version::from_size({n}) panicked: {}", run::panic_text(p)), "null".into());
                -3
            }
        };
        ctx.eval(hash(&("ver", n)));
        ctx.emit(&format!("{{\"id\":\"ver-{n}\",\"ver\":{},\"r\":{}}}", n.min(1 << 20), v), 1);
    }
    for v in 1..=40usize {
        ctx.emit(&format!("{{\"id\":\"size-{v}\",\"size\":{},\"r\":{}}}", v, rqrr::Version(v).to_size()), 1);
    }
    for k in 0..ctx.amount(100, 1000) {
        let mut r = Rng::for_case(seed, "push", k as u64);
        let n = if k == 0 { rqrr::MAX_PAYLOAD_SIZE * 8 } else { r.range(0, 100) };
        let bits: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect();
        let res = run::catch_unwind(|| {
            let mut d = rqrr::RawData { data: [0; rqrr::MAX_PAYLOAD_SIZE], len: 0 };
            for &b in &bits {
                d.push(b != 0);
            }
            d
        });
        ctx.eval(hash(&("push", &bits)));
        match res {
            Ok(d) => {
                let nb = n.div_ceil(8);
                let dirty = d.data[nb.min(d.data.len())..].iter().any(|&b| b != 0);
                ctx.emit(&format!("{{\"id\":\"push-{k}\",\"push\":{},\"len\":{},\"d\":{},\"dirty\":{}}}", json::nums(&bits), d.len, json::nums(&d.data[..nb]), dirty), n as u64 / 4 + 20);
            }
            Err(p) => ctx.violation(&format!("RawData::push panicked: {}", run::panic_text(p)), format!("{{\"bits\":{}}}", json::nums(&bits))),
        }
    }
}
