//! Images written to files, and pixels asked for by point.

use crate::ctx::{hash, par, Ctx};
use crate::enc;
use crate::json;
use crate::rng::Rng;
use crate::run;
use crate::shapes;
use rqrr::{BitGrid, Point, PreparedImage, SimpleGrid};
use std::panic::AssertUnwindSafe;

fn back(path: &str) -> (u32, u32, Vec<i64>) {
    let im = image::open(path).expect("exported image").to_rgb8();
    let px = im.pixels().map(|p| (p.0[0] as i64) << 16 | (p.0[1] as i64) << 8 | p.0[2] as i64).collect();
    (im.width(), im.height(), px)
}

struct Own(enc::Grid);
impl BitGrid for Own {
    fn size(&self) -> usize {
        self.0.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        self.0.get(y, x)
    }
}

fn grid_record<G: BitGrid>(id: &str, g: &G, path: &str) -> String {
    let n = g.size();
    let mut bits = vec![];
    for y in 0..n {
        for x in 0..n {
            bits.push(g.bit(y, x) as u8);
        }
    }
    g.write_grid_to(path);
    let (w, h, px) = back(path);
    format!(
        "{{\"id\":{},\"kind\":\"grid\",\"n\":{n},\"bits\":{},\"iw\":{w},\"ih\":{h},\"im\":{}}}",
        json::string(id),
        json::nums(&bits),
        json::nums(&px)
    )
}

pub fn exports(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let n = ctx.amount(400, 4000);
    let dir = ctx.dir.clone();
    let out = {
        let cx = &*ctx;
        par(n, |wk, k| {
            let mut r = Rng::for_case(seed, "exports", k as u64);
            let id = format!("export-{k}");
            let path = format!("{dir}/export-{k}.png");
            cx.begin(wk, || format!("{{\"case\":\"{id}\",\"seed\":{seed}}}"));
            let res = run::catch_unwind(AssertUnwindSafe(|| {
                let mut lines = vec![];
                if k % 3 == 0 {
                    let n = *r.pick(&[1usize, 2, 5, 21, 25, 33, 41]);
                    let mut m = enc::Grid::new(n);
                    let d = r.range(1, 99);
                    for b in m.bits.iter_mut() {
                        *b = r.chance(d, 100) as u8;
                    }
                    if k % 2 == 0 {
                        lines.push(grid_record(&id, &Own(m), &path));
                    } else {
                        lines.push(grid_record(&id, &SimpleGrid::from_func(n, |x, y| m.get(y, x)), &path));
                    }
                    return lines;
                }
                let p = match k % 3 {
                    1 => {
                        let (mut p, _) = crate::finds::one(&mut r, 1, 3);
                        if r.chance(1, 2) {
                            shapes::scribble(&mut r, &mut p, 10);
                        }
                        p
                    }
                    _ => {
                        let side = *r.pick(&[3, 30, 80]);
                        if r.chance(1, 2) { shapes::picture(&mut r, side) } else { shapes::crowd(&mut r, side + 40) }
                    }
                };
                let mut img = PreparedImage::prepare_from_bitmap(p.w, p.h, |x, y| p.at(x, y) == 1);
                if r.chance(5, 6) {
                    for (j, g) in img.detect_grids().iter().enumerate() {
                        lines.push(grid_record(&format!("{id}-grid{j}"), &g.grid, &path));
                    }
                }
                let mut px: Vec<u8> = vec![];
                for y in 0..p.h {
                    for x in 0..p.w {
                        px.push(img.get_pixel_at(x, y).into());
                    }
                }
                img.write_state_to(&path);
                let (w, h, im) = back(&path);
                let far = [i32::MIN, -70_000, -2, -1, 0, 1, 70_000, i32::MAX];
                let pts: Vec<String> = (0..24)
                    .map(|_| {
                        let mut coord = |side: usize| match r.below(3) {
                            0 => *r.pick(&far),
                            1 => side as i32 + r.below(5) as i32 - 3,
                            _ => r.below(side) as i32,
                        };
                        let (x, y) = (coord(p.w), coord(p.h));
                        let c: u8 = img.get_pixel_at_point(Point { x, y }).into();
                        // TLC's integers end below i32::MIN's magnitude
                        format!("[{},{},{c}]", x.max(-i32::MAX), y.max(-i32::MAX))
                    })
                    .collect();
                lines.push(format!(
                    "{{\"id\":\"{id}\",\"kind\":\"picture\",\"w\":{},\"h\":{},\"px\":{},\"iw\":{w},\"ih\":{h},\"im\":{},\"pts\":{}}}",
                    p.w,
                    p.h,
                    json::nums(&px),
                    json::nums(&im),
                    json::list(&pts)
                ));
                lines
            }));
            cx.end(wk);
            let _ = std::fs::remove_file(&path);
            (res.map_err(run::panic_text), id)
        })
    };
    for (res, id) in out {
        match res {
            Ok(lines) => {
                for l in lines {
                    ctx.eval(hash(&l));
                    ctx.emit(&l, l.len() as u64);
                }
            }
            Err(e) => ctx.violation(&format!("exporting panics: {e}"), format!("{{\"case\":\"{id}\"}}")),
        }
    }
}
