//! Preparing pictures: grey values to black and white, and pixels taken as
//! they are.

use crate::ctx::{hash, par, Ctx};
use crate::json;
use crate::rng::Rng;
use crate::run;
use crate::scene::{Drawn, Picture, Scene};
use crate::search;
use crate::shapes;
use crate::triage;
use rqrr::PreparedImage;
use std::panic::AssertUnwindSafe;

fn grey(r: &mut Rng, k: usize) -> (usize, usize, Vec<u8>) {
    let w = match r.below(6) {
        0 => r.range(1, 9),
        1 => *r.pick(&[8, 15, 16, 17, 23, 24, 31, 32]),
        2 => r.range(100, 260),
        _ => r.range(1, 90),
    };
    // Wide rows: a mean is the sum of an eighth of a row of pixels.
    let w = match k % 100 {
        11 => r.range(2050, 3000),
        12 if k % 400 == 12 => r.range(36_000, 60_000),
        13 => r.range(500, 1500),
        _ => w,
    };
    let h = match r.below(4) {
        _ if w > 300 => r.range(1, 3),
        0 => r.range(1, 4),
        _ => r.range(1, 24),
    };
    if k == 0 {
        return (0, 0, vec![]);
    }
    let mut g = vec![0u8; w * h];
    let kind = if w > 30_000 { *r.pick(&[2, 7, 8]) } else { r.below(9) };
    let (lo, hi) = {
        let a = r.byte();
        let b = r.byte();
        (a.min(b), if w > 300 { a.max(b) | 240 } else { a.max(b) })
    };
    let d = if kind == 6 {
        let mut d = Drawn::random(r, 1, false);
        d.place(r.below(6), r.below(6), r.range(1, 4), r.below(4));
        Some(d)
    } else {
        None
    };
    let p = r.range(1, 99);
    for y in 0..h {
        for x in 0..w {
            g[y * w + x] = match kind {
                0 => r.byte(),
                1 => lo,
                2 => if r.chance(if w > 300 { 1 + p % 10 } else { p }, 100) { lo } else { hi },
                3 => (x * 255 / w) as u8,
                4 => (y * 255 / h) as u8,
                5 => if (x / (1 + p % 9) + y / (1 + p % 5)) % 2 == 0 { lo } else { hi },
                6 => {
                    let d = d.as_ref().unwrap();
                    let black = d.module(x, y).map(|(u, v)| d.mat.get(v, u)).unwrap_or(false);
                    let light = 255 - (x * (p / 2) / w) as u8;
                    if black { light / 4 } else { light }
                }
                7 => (if w > 300 { hi } else { lo }).saturating_add((r.below(5)) as u8),
                _ => if x == p % w { lo } else { hi },
            };
        }
    }
    (w, h, g)
}

pub fn binarise(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let n = ctx.amount(1500, 20000);
    let out = {
        let cx = &*ctx;
        par(n, |wk, k| {
            let mut r = Rng::for_case(seed, "binarise", k as u64);
            let (w, h, g) = grey(&mut r, k);
            let id = format!("binarise-{k}");
            cx.begin(wk, || format!("{{\"case\":\"{id}\",\"w\":{w},\"h\":{h},\"g\":{}}}", json::nums(&g)));
            let res = run::catch_unwind(AssertUnwindSafe(|| {
                let a = PreparedImage::prepare_from_greyscale(w, h, |x, y| g[y * w + x]);
                let img = image::GrayImage::from_raw(w as u32, h as u32, g.clone()).unwrap();
                let b = PreparedImage::prepare(img);
                let c = PreparedImage::prepare_from_bitmap(w, h, |x, y| g[y * w + x] & 1 == 1);
                let raw: Vec<u8> = g.iter().map(|x| x & 1).collect();
                let d = PreparedImage::without_preparation(image::GrayImage::from_raw(w as u32, h as u32, raw).unwrap());
                let mut px: [Vec<u8>; 4] = Default::default();
                for y in 0..h {
                    for x in 0..w {
                        px[0].push(a.get_pixel_at(x, y).into());
                        px[1].push(b.get_pixel_at(x, y).into());
                        px[2].push(c.get_pixel_at(x, y).into());
                        px[3].push(d.get_pixel_at(x, y).into());
                    }
                }
                let dim = [a.width(), a.height(), b.width(), b.height(), c.width(), c.height()].map(|v| v as i64);
                (px, dim)
            }));
            cx.end(wk);
            let hs = hash(&(w, h, &g));
            match res {
                Ok((px, dim)) => {
                    let g01: Vec<u8> = g.iter().map(|x| x & 1).collect();
                    (Ok(format!(
                        "{{\"id\":\"{id}\",\"w\":{w},\"h\":{h},\"g\":{},\"g01\":{},\"grey\":{},\"buf\":{},\"bits\":{},\"raw\":{},\"dim\":{}}}",
                        json::nums(&g), json::nums(&g01), json::nums(&px[0]), json::nums(&px[1]), json::nums(&px[2]), json::nums(&px[3]), json::nums(&dim)
                    )), hs, w * h)
                }
                Err(e) => (Err((run::panic_text(e), format!("{{\"w\":{w},\"h\":{h},\"g\":{}}}", json::nums(&g)))), hs, 0),
            }
        })
    };
    for (rec, h, cost) in out {
        ctx.eval(h);
        match rec {
            Ok(l) => ctx.emit(&l, cost as u64 + 100),
            Err((e, d)) => ctx.violation(&format!("preparing a picture panics: {e}"), d),
        }
    }
}

/// A picture as a camera might see it: uneven light, contrast, noise.
fn lit(r: &mut Rng, p: &Picture) -> Vec<u8> {
    let (w, h) = (p.w, p.h);
    let bright = r.range(120, 255) as i64;
    let dark = bright * r.range(0, 60) as i64 / 100;
    let noise = *r.pick(&[0, 0, 0, 2, 6]);
    let (gx, gy) = (r.below(70) as i64 - 35, r.below(70) as i64 - 35);
    let mut g = vec![0u8; w * h];
    for y in 0..h {
        for x in 0..w {
            let base = if p.at(x, y) == 1 { dark } else { bright };
            let light = 100 + gx * (2 * x as i64 - w as i64) / w as i64 + gy * (2 * y as i64 - h as i64) / h as i64;
            let n = r.below(2 * noise + 1) as i64 - noise as i64;
            g[y * w + x] = (base * light / 100 + n).clamp(0, 255) as u8;
        }
    }
    g
}

/// Searching what was prepared from grey values.
pub fn grey_search(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let checked = ctx.amount(400, 4000);
    let n = checked + ctx.amount(5000, 150_000);
    let sent = std::sync::atomic::AtomicUsize::new(0);
    let out = {
        let cx = &*ctx;
        par(n, |wk, k| {
            let mut r = Rng::for_case(seed, "grey-search", k as u64);
            let (p, sc) = match k % 5 {
                0 | 1 => {
                    let v = r.range(1, 8);
                    let s = crate::finds::one(&mut r, v, 5);
                    (s.0, Some(s.1))
                }
                2 => crate::finds::amid(&mut r, k),
                3 => {
                    let side = r.range(60, 260);
                    (shapes::crowd(&mut r, side), None)
                }
                _ => (shapes::picture(&mut r, 150), None),
            };
            let g = if r.chance(1, 12) { p.px.iter().map(|_| r.byte()).collect() } else { lit(&mut r, &p) };
            let id = format!("grey-{k}");
            cx.begin(wk, || format!("{{\"case\":\"{id}\",\"w\":{},\"h\":{},\"g\":{}}}", p.w, p.h, json::nums(&g)));
            let res = search::search_grey(p.w, p.h, &g);
            cx.end(wk);
            let h = hash(&(p.w, p.h, &g));
            match res {
                Ok((q, o)) => {
                    // thresholding gave back the drawing: what is claimed of drawings holds
                    let sc: Option<Scene> = sc.filter(|_| q.px == p.px);
                    let ask: &[&str] = if sc.is_some() { &["grey", "white", "claimed", "few", "found"] } else { &["grey", "white", "claimed", "few"] };
                    let send = k < checked
                        || triage::odd(ask, &search::runs(&q), &o, sc.as_ref()) && sent.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < 16;
                    (Ok(send.then(|| search::record(&id, ask, &q, &o, sc.as_ref()))), h, p.w * p.h, sc.is_some(), o.grids.len())
                }
                Err(e) => (Err((e, format!("{{\"w\":{},\"h\":{},\"g\":{}}}", p.w, p.h, json::nums(&g)))), h, 0, false, 0),
            }
        })
    };
    for (rec, h, cost, exact, grids) in out {
        ctx.eval(h);
        ctx.count("thresholded_to_the_scene", exact as u64);
        ctx.count("grids", grids as u64);
        match rec {
            Ok(Some(l)) => {
                let c = l.len() as u64 + cost as u64;
                ctx.emit(&l, c)
            }
            Ok(None) => ctx.count("swept", 1),
            Err((e, d)) => ctx.violation(&format!("searching a prepared grey picture panics: {e}"), d),
        }
    }
}
