//! Suites about searching pictures.

use crate::dec;
use crate::ctx::{hash, par, Ctx};
use crate::json;
use crate::rng::Rng;
use crate::scene::{Drawn, Picture, Scene};
use crate::search::{self, suite, sweep};
use crate::shapes;

fn unit(r: &mut Rng) -> f64 {
    r.below(2001) as f64 / 1000.0 - 1.0
}

/// One upright symbol, any quarter turn, mirrored or not.
pub fn one(r: &mut Rng, v: usize, smax: usize) -> (Picture, Scene) {
    let mirrored = r.chance(1, 2);
    let mut d = Drawn::random(r, v, mirrored);
    let s = r.range(2, smax);
    let side = d.mat.n * s;
    let q = r.range(1, 4) * s;
    let (x, y) = (q + r.below(6 * s), q + r.below(6 * s));
    d.place(x, y, s, r.below(4));
    let mut p = Picture::new(x + side + q + r.below(2 * s + 1), y + side + q + r.below(2 * s + 1));
    d.draw(&mut p);
    (p, Scene { symbols: vec![d], quiet: 0 })
}

pub fn placed(ctx: &mut Ctx) {
    let per = ctx.amount(8, 60);
    let make = |per: usize| {
        move |r: &mut Rng, k: usize| {
            let v = k / per + 1;
            let smax = if v <= 6 { 9 } else if v <= 14 { 5 } else { 3 };
            let (p, s) = one(r, v, smax);
            (p, Some(s))
        }
    };
    suite(ctx, "placed", 40 * per, false, &["found", "few"], make(per));
    let per = ctx.amount(80, 1500);
    sweep(ctx, "placed", 40 * per, false, &["found", "few"], make(per));
    // larger modules
    let per = ctx.amount(8, 100);
    sweep(ctx, "placed-wide", 40 * per, false, &["found", "few"], move |r, k| {
        let (p, s) = one(r, k / per + 1, 14);
        (p, Some(s))
    });
    // far away from the origin
    let n = ctx.amount(60, 1000);
    sweep(ctx, "placed-far", n, false, &["found", "few"], far);
    // modules of many pixels, without the cost of validating every pixel
    large(ctx);
}

/// A small symbol somewhere in a very long picture.
fn far(r: &mut Rng, k: usize) -> (Picture, Option<Scene>) {
    let mirrored = r.chance(1, 2);
    let v = r.range(1, 3);
    let mut d = Drawn::random(r, v, mirrored);
    let s = r.range(2, 4);
    let side = d.mat.n * s;
    let long = *r.pick(&[2000, 9000, 33_000, 40_000, 66_000, 70_000]) + r.below(900);
    let end = if r.chance(1, 2) { long - side - 4 * s } else { 4 * s + r.below(long - side - 8 * s) };
    let across = side + 8 * s;
    let mut p = if k % 2 == 0 {
        d.place(end, 4 * s, s, r.below(4));
        Picture::new(long, across)
    } else {
        d.place(4 * s, end, s, r.below(4));
        Picture::new(across, long)
    };
    d.draw(&mut p);
    (p, Some(Scene { symbols: vec![d], quiet: 0 }))
}

/// Small versions in large pictures: outcome compared by the recorder with
/// the same contract, as the pictures are too large for TLC.
fn large(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let scales: Vec<usize> = if ctx.thorough { vec![20, 33, 57, 80, 101, 130, 141, 160, 190] } else { vec![20, 57, 101, 142] };
    let n = scales.len() * 12;
    let out = {
        let cx = &*ctx;
        par(n, |w, k| {
            let mut r = Rng::for_case(seed, "large", k as u64);
            let (s, v, turns) = (scales[k / 12], k % 3 + 1, k / 3 % 4);
            let mirrored = r.chance(1, 2);
            let mut d = Drawn::random(&mut r, v, mirrored);
            let (x, y) = (s * r.range(4, 6), s * r.range(4, 6));
            d.place(x, y, s, turns);
            let side = d.mat.n * s;
            let mut p = Picture::new(x + side + 4 * s, y + side + 4 * s);
            d.draw(&mut p);
            cx.begin(w, || format!("{{\"case\":\"large-{k}\",\"v\":{v},\"scale\":{s},\"turns\":{turns}}}"));
            let o = search::search(&p, false);
            cx.end(w);
            let what = match &o {
                Err(e) => Some(format!("searching a picture panics: {e}")),
                Ok(o) => {
                    let rings = count_rings(&o.after);
                    let good = o.grids.len() == 1 && o.grids[0].bits == d.mat.bits && o.grids[0].res == "Ok" && o.grids[0].out == d.data;
                    (rings == 3 && !good).then(|| "a clean upright symbol with large modules is not found or not read".to_string())
                }
            };
            (what, hash(&(v, s, turns, x, y, &d.mat.bits)), format!("{{\"v\":{v},\"scale\":{s},\"turns\":{turns},\"x\":{x},\"y\":{y},\"mirrored\":{mirrored},\"n\":{},\"mat\":{}}}", d.mat.n, json::nums(&d.mat.bits)))
        })
    };
    for (what, h, d) in out {
        ctx.eval(h);
        ctx.count("large", 1);
        if let Some(w) = what {
            ctx.violation(&w, d);
        }
    }
}

/// Connected regions shaded as finder rings.
fn count_rings(al: &[i64]) -> usize {
    let runs: Vec<(i64, i64, i64)> = al.chunks(4).filter(|c| c[3] == 2).map(|c| (c[0], c[1], c[1] + c[2])).collect();
    let mut id: Vec<usize> = (0..runs.len()).collect();
    fn root(id: &mut [usize], mut i: usize) -> usize {
        while id[i] != i {
            id[i] = id[id[i]];
            i = id[i];
        }
        i
    }
    let mut prev = 0;
    for i in 0..runs.len() {
        while runs[prev].0 < runs[i].0 - 1 {
            prev += 1;
        }
        let mut j = prev;
        while j < i && runs[j].0 < runs[i].0 {
            if runs[j].0 == runs[i].0 - 1 && runs[j].1 < runs[i].2 && runs[i].1 < runs[j].2 {
                let (a, b) = (root(&mut id, i), root(&mut id, j));
                id[a] = b;
            }
            j += 1;
        }
    }
    (0..runs.len()).filter(|&i| id[i] == i).count()
}

/// One symbol turned by any angle, sheared, tilted.
pub fn tilted(ctx: &mut Ctx) {
    let n = ctx.amount(240, 2400);
    let make = |r: &mut Rng, k: usize| {
        let v = k % 5 + 2;
        let mirrored = r.chance(1, 2);
        let mut d = Drawn::random(r, v, mirrored);
        let s = r.range(20, 28) as f64 / 2.0;
        let angle = unit(r) * std::f64::consts::PI;
        let (shear, stretch) = (unit(r) * 0.1, 1.0 + unit(r) * 0.1);
        let tilt = (unit(r) * 0.1, unit(r) * 0.1);
        let w = (d.mat.n as f64 * s * 1.6 + 8.0 * s) as usize;
        d.tilt(w, s, angle, shear, stretch, tilt);
        let mut p = Picture::new(w, w);
        d.draw(&mut p);
        (p, Some(Scene { symbols: vec![d], quiet: 0 }))
    };
    suite(ctx, "tilted", n, false, &["found", "few"], make);
    let n = ctx.amount(6000, 100_000);
    sweep(ctx, "tilted", n, false, &["found", "few"], make);
}

struct Spot {
    x: usize,
    y: usize,
    s: usize,
    n: usize,
    turns: usize,
}

impl Spot {
    /// centres of the finder patterns, doubled
    fn finders(&self) -> Vec<(i64, i64)> {
        let (s, n) = (self.s as i64, self.n as i64);
        let (x, y) = (2 * self.x as i64, 2 * self.y as i64);
        let (a, b) = (7 * s, (2 * n - 7) * s);
        let c = [(a, a), (b, a), (b, b), (a, b)];
        (0..4).filter(|k| (k + 4 - self.turns) % 4 != 2).map(|k| (x + c[k].0, y + c[k].1)).collect()
    }
}

/// No three finder patterns of different symbols look like one symbol's.
fn isolated(ps: &[Spot]) -> bool {
    let fs: Vec<(usize, (i64, i64))> = ps.iter().enumerate().flat_map(|(i, p)| p.finders().into_iter().map(move |f| (i, f))).collect();
    for &(i, p) in &fs {
        for &(a, q) in &fs {
            for &(b, t) in &fs {
                if a == i && b == i {
                    continue;
                }
                let (u, v) = ((q.0 - p.0).abs(), (q.1 - p.1).abs());
                let (m, n) = ((t.0 - p.0).abs(), (t.1 - p.1).abs());
                if u * 4 < v && n * 4 < m && v.min(m) * 10 > v.max(m) * 7 {
                    return false;
                }
            }
        }
    }
    true
}

/// Places the symbols apart from each other, in random scales and turns, so
/// that their finder patterns cannot be confused.
fn arrange(r: &mut Rng, mut ds: Vec<Drawn>, smax: usize) -> (usize, usize, Vec<Drawn>, Vec<usize>) {
    loop {
        let mut area = 0;
        let mut spots: Vec<Spot> = vec![];
        for d in &ds {
            let s = r.range(2, smax);
            area += d.mat.n * s + 8 * s;
            spots.push(Spot { x: 0, y: 0, s, n: d.mat.n, turns: r.below(4) });
        }
        let k = ds.len();
        let side = area;
        for _ in 0..400 {
            for p in spots.iter_mut() {
                let room = side - p.n * p.s - 8 * p.s;
                p.x = 4 * p.s + r.below(room + 1);
                p.y = 4 * p.s + r.below(room + 1);
            }
            let apart = |a: &Spot, b: &Spot| {
                let g = 4 * a.s.max(b.s);
                a.x + a.n * a.s + g <= b.x || b.x + b.n * b.s + g <= a.x || a.y + a.n * a.s + g <= b.y || b.y + b.n * b.s + g <= a.y
            };
            let all = (0..k).all(|i| (0..i).all(|j| apart(&spots[i], &spots[j])));
            if !all || !isolated(&spots) {
                continue;
            }
            let w = spots.iter().map(|p| p.x + p.n * p.s + 4 * p.s).max().unwrap();
            let h = spots.iter().map(|p| p.y + p.n * p.s + 4 * p.s).max().unwrap();
            for (d, p) in ds.iter_mut().zip(&spots) {
                d.place(p.x, p.y, p.s, p.turns);
            }
            return (w, h, ds, spots.iter().map(|p| p.s).collect());
        }
    }
}

/// Symbols, damaged or not, amid anything else.
pub fn amid(r: &mut Rng, _: usize) -> (Picture, Option<Scene>) {
    let k = *r.pick(&[1, 1, 1, 2, 3]);
    let vmax = *r.pick(&[1, 2, 4, 7, 10]);
    let ds = (0..k)
        .map(|_| {
            let (v, e, m, mirrored) = (r.range(1, vmax), r.below(4), r.below(8), r.chance(1, 4));
            match r.below(5) {
                0 => Drawn::random(r, v, mirrored),
                1 => {
                    let (g, d, _) = dec::damaged_symbol(r, v, e, m, true);
                    Drawn::of(g, d, mirrored)
                }
                2 => {
                    let (g, d, _) = dec::damaged_symbol(r, v, e, m, false);
                    Drawn::of(g, d, mirrored)
                }
                _ => {
                    let (g, d) = dec::blotted_symbol(r, v, e, m);
                    Drawn::of(g, d, mirrored)
                }
            }
        })
        .collect();
    let smax = if vmax < 5 { 5 } else { 3 };
    let (w, h, ds, ss) = arrange(r, ds, smax);
    let (w, h) = (w + r.below(60), h + r.below(60));
    let mut p = Picture::new(w, h);
    shapes::clutter(r, &mut p);
    let quiet = *r.pick(&[1, 2, 2, 3, 4]);
    for (d, &s) in ds.iter().zip(&ss) {
        // a symbol's own square: where its first and last modules are
        let (x, y) = d.corner();
        let side = d.mat.n * s + 2 * quiet * s;
        p.rect(x - quiet * s, y - quiet * s, side, side, 0);
        d.draw(&mut p);
    }
    (p, Some(Scene { symbols: ds, quiet }))
}

pub fn cluttered(ctx: &mut Ctx) {
    let n = ctx.amount(300, 3000);
    suite(ctx, "amid", n, false, &["found", "few"], amid);
    let n = ctx.amount(6000, 150_000);
    sweep(ctx, "amid", n, false, &["found", "few"], amid);
}

pub fn several(ctx: &mut Ctx) {
    let n = ctx.amount(260, 2600);
    let make = |r: &mut Rng, _: usize| {
        let k = r.range(2, 4);
        let vmax = *r.pick(&[1, 3, 8]);
        let ds = (0..k)
            .map(|_| {
                let (v, mirrored) = (r.range(1, vmax), r.chance(1, 3));
                Drawn::random(r, v, mirrored)
            })
            .collect();
        let (w, h, ds, _) = arrange(r, ds, 4);
        let mut pic = Picture::new(w, h);
        ds.iter().for_each(|d| d.draw(&mut pic));
        (pic, Some(Scene { symbols: ds, quiet: 0 }))
    };
    suite(ctx, "several", n, false, &["found", "few"], make);
    let n = ctx.amount(2500, 80_000);
    sweep(ctx, "several", n, false, &["found", "few"], make);
    // arbitrary crowds of rings: only the number of grids is claimed
    let n = ctx.amount(400, 4000);
    let make = |r: &mut Rng, _: usize| (shapes::rings(r, 130), None);
    suite(ctx, "rings", n, false, &["few"], make);
    let n = ctx.amount(10_000, 200_000);
    sweep(ctx, "rings", n, false, &["few"], make);
}

const SHADES: &[&str] = &["white", "whole", "align", "few"];

/// Any picture: black stays black, white stays white, regions stay whole.
pub fn regions(ctx: &mut Ctx) {
    let n = ctx.amount(900, 9000);
    let make = |r: &mut Rng, k: usize| {
        let side = *r.pick(&[12, 40, 90, 130]);
        if k % 4 == 0 {
            (shapes::crowd(r, side + 60), None)
        } else {
            (shapes::picture(r, side), None)
        }
    };
    suite(ctx, "regions", n, true, SHADES, make);
    let n = ctx.amount(20_000, 400_000);
    sweep(ctx, "regions", n, true, SHADES, make);
}

/// Pictures full of things that nearly are finder patterns.
pub fn crowd(ctx: &mut Ctx) {
    let n = ctx.amount(500, 5000);
    let make = |r: &mut Rng, k: usize| {
        let side = *r.pick(&[60, 150, 260]);
        match k % 6 {
            0 => (shapes::picture(r, side), None),
            1 | 2 => (shapes::borderline(r), None),
            _ => (shapes::crowd(r, side), None),
        }
    };
    suite(ctx, "crowd", n, true, &["white", "claimed", "again"], make);
    let n = ctx.amount(4000, 100_000);
    sweep(ctx, "crowd", n, true, &["white", "claimed", "again"], make);
}

pub fn copies(ctx: &mut Ctx) {
    let n = ctx.amount(500, 5000);
    let make = |r: &mut Rng, k: usize| match k % 4 {
        0 => (shapes::crowd(r, 200), None),
        1 => (shapes::picture(r, 120), None),
        2 => (shapes::rings(r, 130), None),
        _ => {
            let v = r.range(1, 5);
            let (mut p, _) = one(r, v, 4);
            shapes::scribble(r, &mut p, 60);
            (p, None)
        }
    };
    suite(ctx, "copies", n, true, &["clone", "late", "again", "buffer"], make);
    let n = ctx.amount(4000, 100_000);
    sweep(ctx, "copies", n, true, &["clone", "late", "again", "buffer"], make);
}

/// Pictures that once broke something.
const KNOWN: &[&str] = &[include_str!("../corpus/noscan.rle"), include_str!("../corpus/slow.rle")];

fn from_rle(s: &str) -> Picture {
    let f: Vec<&str> = s.split_whitespace().collect();
    let (w, h) = (f[0].parse().unwrap(), f[1].parse().unwrap());
    let mut p = Picture::new(w, h);
    let (mut i, mut b) = (0, 0u8);
    for n in f[2].split(',') {
        for _ in 0..n.parse::<usize>().unwrap() {
            p.px[i] = b;
            i += 1;
        }
        b ^= 1;
    }
    p
}

/// Any picture at all: the search returns.
pub fn chaos(ctx: &mut Ctx) {
    let small = ctx.amount(300, 3000);
    suite(ctx, "chaos-known", KNOWN.len(), true, &["white", "few"], |_, k| (from_rle(KNOWN[k]), None));
    suite(ctx, "chaos", small, true, &["white", "few", "untouched"], |r, k| {
        let side = *r.pick(&[4, 30, 100]);
        let mut p = shapes::picture(r, side);
        if k % 20 == 0 {
            p = Picture::new(if k % 40 == 0 { 0 } else { r.below(4) }, r.below(30));
        }
        (p, None)
    });
    // in bulk, without validating each picture
    let n = ctx.amount(400_000, 6_000_000);
    bulk(ctx, "chaos-bulk", n, |r| {
        let side = *r.pick(&[30, 60, 100, 100, 150, 150, 300]);
        shapes::picture(r, side)
    });
    // very large
    let n = ctx.amount(60, 3000);
    bulk(ctx, "chaos-vast", n, vast);
    // extreme sides
    let n = ctx.amount(300, 6000);
    bulk(ctx, "chaos-long", n, |r| {
        let side = *r.pick(&[20, 30, 60]);
        let p = shapes::picture(r, side);
        let k = (1_500_000 / (p.w * p.h).max(1)).max(1);
        let (kx, ky) = match r.below(4) {
            0 => (k, 1),
            1 => (1, k),
            2 => (r.range(1, k), 1),
            _ => (1, r.range(1, k)),
        };
        stretched(&p, kx, ky)
    });
}

/// Millions of pixels: one region filling most of the picture, long thin
/// regions, very many regions.
fn vast(r: &mut Rng) -> Picture {
    let (w, h) = (r.range(1500, 3200), r.range(1500, 3200));
    let mut p = Picture::new(w, h);
    match r.below(6) {
        0 => p.rect(0, 0, w, h, 1),
        1 => {
            // comb
            let t = r.range(1, 6);
            p.rect(0, 0, w, t, 1);
            for x in (0..w).step_by(2 * t) {
                p.rect(x, 0, t, h, 1);
            }
        }
        2 => {
            // spiral
            let t = r.range(1, 9);
            let (mut x0, mut y0, mut x1, mut y1) = (0, 0, w, h);
            while x1 > x0 + 4 * t && y1 > y0 + 4 * t {
                p.rect(x0, y0, x1 - x0, t, 1);
                p.rect(x1 - t, y0, t, y1 - y0, 1);
                p.rect(x0 + 2 * t, y1 - t, x1 - x0 - 2 * t, t, 1);
                p.rect(x0 + 2 * t, y0 + 2 * t, t, y1 - y0 - 2 * t, 1);
                x0 += 2 * t;
                y0 += 2 * t;
                x1 -= 2 * t;
                y1 -= 2 * t;
            }
        }
        3 => {
            let t = r.range(1, 40);
            for y in 0..h {
                for x in 0..w {
                    if (x / t + y / t) % 2 == 0 {
                        p.set(x, y, 1);
                    }
                }
            }
        }
        4 => {
            let side = *r.pick(&[60, 100, 150]);
            let q = shapes::picture(r, side);
            let k = (1500 / q.w.max(q.h).max(1)).max(1);
            return stretched(&q, k, k);
        }
        _ => {
            let side = r.range(400, 1200);
            return shapes::crowd(r, side);
        }
    }
    // finder patterns inside
    let fg = if p.at(0, 0) == 1 { 0 } else { 1 };
    for _ in 0..r.below(12) {
        let s = r.range(2, 90);
        if w > 9 * s && h > 9 * s {
            let (x, y) = (r.below(w - 9 * s), r.below(h - 9 * s));
            if r.chance(1, 2) {
                p.rect(x, y, 9 * s, 9 * s, 0);
            }
            let b = if r.chance(1, 3) { fg } else { 1 };
            p.rect(x + s, y + s, 7 * s, 7 * s, b);
            p.rect(x + 2 * s, y + 2 * s, 5 * s, 5 * s, 1 - b);
            p.rect(x + 3 * s, y + 3 * s, 3 * s, 3 * s, b);
        }
    }
    p
}

fn stretched(p: &Picture, kx: usize, ky: usize) -> Picture {
    let mut q = Picture::new(p.w * kx, p.h * ky);
    for y in 0..q.h {
        for x in 0..q.w {
            q.px[y * q.w + x] = p.px[y / ky * p.w + x / kx];
        }
    }
    q
}

fn bulk(ctx: &mut Ctx, name: &str, n: usize, make: impl Fn(&mut Rng) -> Picture + Sync) {
    let seed = ctx.seed;
    let out = {
        let cx = &*ctx;
        par(n, |w, k| {
            let mut r = Rng::for_case(seed, name, k as u64);
            let p = make(&mut r);
            cx.begin(w, || format!("{{\"case\":\"{name}-{k}\",\"seed\":{seed}}}"));
            let o = search::search(&p, false);
            cx.end(w);
            match o {
                Ok(o) => (None, o.grids.len() as u64, hash(&p.px)),
                Err(e) => (Some((e, search::rle(&p))), 0, hash(&p.px)),
            }
        })
    };
    for (e, g, h) in out {
        ctx.eval(h);
        ctx.count("grids", g);
        if let Some((e, pic)) = e {
            ctx.violation(&format!("searching a picture panics: {e}"), pic);
        }
    }
}
