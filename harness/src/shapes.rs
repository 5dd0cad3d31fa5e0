//! Arbitrary pictures, with a taste for things that look like parts of a
//! symbol: rings around stones in every shape, with tails, touching, nested;
//! timing-like rows, alignment-like dots, noise.

use crate::rng::Rng;
use crate::scene::{Drawn, Picture};

impl Picture {
    pub fn put(&mut self, x: i64, y: i64, b: u8) {
        if x >= 0 && y >= 0 && (x as usize) < self.w && (y as usize) < self.h {
            self.set(x as usize, y as usize, b);
        }
    }
    /// A line in steps along the axes, so its pixels are edge-connected.
    pub fn line(&mut self, (mut x, mut y): (i64, i64), (x1, y1): (i64, i64), b: u8) {
        let (dx, dy) = ((x1 - x).abs(), (y1 - y).abs());
        let (sx, sy) = ((x1 - x).signum(), (y1 - y).signum());
        let (mut ix, mut iy) = (0, 0);
        self.put(x, y, b);
        while ix < dx || iy < dy {
            if (1 + 2 * ix) * dy < (1 + 2 * iy) * dx {
                x += sx;
                ix += 1;
            } else {
                y += sy;
                iy += 1;
            }
            self.put(x, y, b);
        }
    }
    pub fn poly(&mut self, pts: &[(f64, f64)], b: u8) {
        let y0 = pts.iter().fold(f64::MAX, |a, p| a.min(p.1)).max(0.0) as usize;
        let y1 = pts.iter().fold(0.0f64, |a, p| a.max(p.1)) as usize + 1;
        let x0 = pts.iter().fold(f64::MAX, |a, p| a.min(p.0)).max(0.0) as usize;
        let x1 = pts.iter().fold(0.0f64, |a, p| a.max(p.0)) as usize + 1;
        for y in y0..y1.min(self.h) {
            for x in x0..x1.min(self.w) {
                let (px, py) = (x as f64 + 0.5, y as f64 + 0.5);
                let mut c = false;
                let n = pts.len();
                let mut j = n - 1;
                for i in 0..n {
                    let ((xi, yi), (xj, yj)) = (pts[i], pts[j]);
                    if (yi > py) != (yj > py) && px < (xj - xi) * (py - yi) / (yj - yi) + xi {
                        c = !c;
                    }
                    j = i;
                }
                if c {
                    self.set(x, y, b);
                }
            }
        }
    }
}

fn unit(r: &mut Rng) -> f64 {
    r.below(2001) as f64 / 1000.0 - 1.0
}

/// A ring around a stone.
pub fn ring(r: &mut Rng, p: &mut Picture, cx: f64, cy: f64, s: f64) {
    let mut pts: Vec<(f64, f64)> = match r.below(12) {
        0 => vec![(0., -1.), (1., 1.), (-1., 1.)],
        1 => vec![(-1., -1.), (1., -1.), (0.3, 0.3), (-1., 1.)],
        2 => vec![(0., -1.), (0.9, 1.), (0., 0.2), (-0.9, 1.)],
        3 => vec![(-1., -1.), (1., -0.2), (1., 0.2), (-1., 1.)],
        4 => {
            let n = r.range(3, 9);
            (0..n).map(|i| (i as f64 * 6.283 / n as f64).sin_cos()).collect()
        }
        _ => vec![(-1., -1.), (1., -1.), (1., 1.), (-1., 1.)],
    };
    let a = if r.chance(1, 2) { 0.0 } else { unit(r) * 3.2 };
    let jit = r.below(4) as f64 * 0.1;
    for q in pts.iter_mut() {
        let (x, y) = (q.0 + jit * unit(r), q.1 + jit * unit(r));
        *q = (x * a.cos() - y * a.sin(), x * a.sin() + y * a.cos());
    }
    let sc = |f: f64| -> Vec<(f64, f64)> { pts.iter().map(|q| (cx + q.0 * s * f, cy + q.1 * s * f)).collect() };
    p.poly(&sc(1.0), 1);
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 4) {
            let c = *r.pick(&sc(0.93));
            let to = (r.range(0, p.w - 1) as i64, r.range(0, p.h - 1) as i64);
            p.line((c.0 as i64, c.1 as i64), to, 1);
        }
    }
    p.poly(&sc(5.0 / 7.0), 0);
    p.poly(&sc(3.0 / 7.0), 1);
}

/// A picture of at most side x side pixels.
pub fn picture(r: &mut Rng, side: usize) -> Picture {
    let w = r.range(1, side);
    let h = r.range(1, side);
    let mut p = Picture::new(w, h);
    match r.below(8) {
        0 => {
            // pure noise of some density
            let d = r.range(1, 99);
            for b in p.px.iter_mut() {
                *b = r.chance(d, 100) as u8;
            }
        }
        1 | 2 => {
            for _ in 0..r.range(1, 9) {
                let (cx, cy, s) = (r.below(w) as f64, r.below(h) as f64, r.range(3, 6 + side / 6) as f64);
                ring(r, &mut p, cx, cy, s);
            }
        }
        3 => {
            // a real symbol, scribbled over
            let v = r.range(1, 4);
            let mirrored = r.chance(1, 2);
            let mut q = Drawn::random(r, v, mirrored);
            let scale = r.range(1, (side / q.mat.n).max(1));
            let full = q.mat.n * scale + 8;
            p = Picture::new(full, full);
            q.place(r.below(9), r.below(9), scale, r.below(4));
            q.draw(&mut p);
        }
        4 | 5 => {
            // three square rings, something like timing rows, and tails that
            // pull the outline of the rings out of shape
            let m = r.range(1, 1 + side / 40);
            let n = 17 + 4 * r.range(1, 5);
            p = Picture::new(side, side);
            let (ox, oy) = (r.range(0, side / 3), r.range(0, side / 3));
            for i in 7..n - 7 {
                p.rect(ox + i * m, oy + 6 * m, m, m, (i & 1 == 0) as u8);
                p.rect(ox + 6 * m, oy + i * m, m, m, (i & 1 == 0) as u8);
            }
            let mut put = |x: usize, y: usize| {
                p.rect(x, y, 7 * m, 7 * m, 1);
                for _ in 0..(if r.chance(2, 3) { r.below(4) } else { 0 }) {
                    let c = (x + r.below(2) * (7 * m - 1), y + r.below(2) * (7 * m - 1));
                    let to = (r.range(0, side - 1) as i64, r.range(0, side - 1) as i64);
                    p.line((c.0 as i64, c.1 as i64), to, 1);
                }
                p.rect(x + m, y + m, 5 * m, 5 * m, 0);
                p.rect(x + 2 * m, y + 2 * m, 3 * m, 3 * m, 1);
            };
            put(ox, oy);
            put(ox + (n - 7) * m, oy);
            put(ox, oy + (n - 7) * m);
        }
        _ => {
            let s = r.range(4, 5 + side / 10) as f64;
            let d = r.range(10 + s as usize * 2, 20 + side * 2 / 3) as f64;
            let (ox, oy) = (r.below(side / 2) as f64, r.below(side / 2) as f64);
            let a = unit(r) * 0.4;
            for (dx, dy) in [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)] {
                let (jx, jy) = (unit(r) * 3.0, unit(r) * 3.0);
                let (x, y) = (ox + d * (dx * a.cos() - dy * a.sin()) + jx, oy + d * (dx * a.sin() + dy * a.cos()) + jy);
                ring(r, &mut p, x, y, s);
            }
        }
    }
    let (w, h) = (p.w, p.h);
    // blots, strokes
    let n = if r.chance(1, 2) { r.below(40) } else { r.below(400) };
    for _ in 0..n {
        let (x, y, q, b) = (r.below(w), r.below(h), r.range(1, 5), r.below(2) as u8);
        p.rect(x, y, q, q, b);
    }
    for _ in 0..(if r.chance(1, 3) { r.below(5) } else { 0 }) {
        let (a, b) = ((r.below(w) as i64, r.below(h) as i64), (r.below(w) as i64, r.below(h) as i64));
        let c = r.below(2) as u8;
        p.line(a, b, c);
    }
    p
}

/// Anything at all around symbols: print, frames, lines, noise, decoys.
pub fn clutter(r: &mut Rng, p: &mut Picture) {
    let (w, h) = (p.w, p.h);
    match r.below(4) {
        0 => p.rect(0, 0, w, h, 1),
        1 => {
            let d = r.range(1, 99);
            for b in p.px.iter_mut() {
                *b = r.chance(d, 100) as u8;
            }
        }
        _ => {}
    }
    for _ in 0..r.below(4) {
        let b = r.chance(2, 3) as u8;
        match r.below(6) {
            0 => {
                for _ in 0..r.range(1, 8) {
                    let (x, y) = (r.below(w), r.below(h));
                    p.rect(x, y, r.range(1, w), r.range(1, h), b);
                }
            }
            1 => {
                // print: rows of small marks
                let t = r.range(2, 9);
                let (mut y, to) = (r.below(h), r.range(1, h));
                while y + t < h && y < to + h / 2 {
                    let mut x = r.below(t);
                    while x < w {
                        for j in 0..t {
                            for i in 0..t {
                                p.put((x + i) as i64, (y + j) as i64, r.chance(1, 2) as u8);
                            }
                        }
                        x += t + r.range(1, 3);
                    }
                    y += t + r.range(1, 4);
                }
            }
            2 => {
                for _ in 0..r.range(1, 12) {
                    let a = (r.below(w) as i64, r.below(h) as i64);
                    let z = (r.below(w) as i64, r.below(h) as i64);
                    p.line(a, z, b);
                }
            }
            3 => {
                let (t, g) = (r.range(1, 4), r.range(2, 30));
                for x in (0..w).step_by(t + g) {
                    p.rect(x, 0, t, h, b);
                }
                if r.chance(1, 2) {
                    for y in (0..h).step_by(t + g) {
                        p.rect(0, y, w, t, b);
                    }
                }
            }
            4 => {
                // rings without a stone, stones without a ring, nearly finders
                for _ in 0..r.range(1, 20) {
                    let (x, y, m) = (r.below(w), r.below(h), r.range(1, 6));
                    p.rect(x, y, 9 * m, 9 * m, 0);
                    match r.below(3) {
                        0 => {
                            p.rect(x + m, y + m, 7 * m, 7 * m, 1);
                            p.rect(x + 2 * m, y + 2 * m, 5 * m, 5 * m, 0);
                        }
                        1 => p.rect(x + 3 * m, y + 3 * m, 3 * m, 3 * m, 1),
                        _ => {
                            // the ring broken through on every row of the stone
                            p.rect(x + m, y + m, 7 * m, 7 * m, 1);
                            p.rect(x + 2 * m, y + 2 * m, 5 * m, 5 * m, 0);
                            p.rect(x + 3 * m, y + 3 * m, 3 * m, 3 * m, 1);
                            p.rect(x + m, y + 3 * m, m, 3 * m, 0);
                        }
                    }
                }
            }
            _ => scribble(r, p, 40),
        }
    }
}

/// Blots and strokes.
pub fn scribble(r: &mut Rng, p: &mut Picture, n: usize) {
    for _ in 0..r.below(n) {
        let (x, y, q, b) = (r.below(p.w), r.below(p.h), r.range(1, 4), r.below(2) as u8);
        p.rect(x, y, q, q, b);
    }
}

/// A square ring around a stone, at (x, y), m pixels per module.
pub fn square(p: &mut Picture, x: usize, y: usize, m: usize) {
    p.rect(x, y, 7 * m, 7 * m, 1);
    p.rect(x + m, y + m, 5 * m, 5 * m, 0);
    p.rect(x + 2 * m, y + 2 * m, 3 * m, 3 * m, 1);
}

/// Clean finder rings at places where several may pass for one symbol.
pub fn rings(r: &mut Rng, side: usize) -> Picture {
    let mut p = Picture::new(side, side);
    let m = r.range(1, 2);
    let step = r.range(9, 16) * m;
    for j in 0..side / step {
        for i in 0..side / step {
            if r.chance(2, 5) {
                let (dx, dy) = (r.below(m + 1), r.below(m + 1));
                square(&mut p, i * step + dx, j * step + dy, m);
            }
        }
    }
    for _ in 0..r.below(60) {
        let (x, y) = (r.below(side), r.below(side));
        if p.at(x, y) == 0 {
            p.rect(x, y, m, m, 1);
        }
    }
    p
}

/// Rows and rows of nearly finder patterns among real ones, so that many
/// regions have to be told apart at the same time.
pub fn crowd(r: &mut Rng, side: usize) -> Picture {
    let (w, h) = (r.range(20, side.max(21)), r.range(20, side.max(21)));
    let mut p = Picture::new(w, h);
    let real = r.range(0, 30);
    let mut y = r.below(4);
    while y < h {
        let m = if r.chance(3, 4) { 1 } else { r.range(1, 3) };
        let mut x = r.below(8);
        let mut tall = m;
        while x < w {
            match r.below(100) {
                k if k < real => {
                    square(&mut p, x, y, m);
                    tall = 7 * m;
                }
                k if k < real + 8 => {
                    // defective: a gap in the ring, a bridge to the stone, a
                    // stone of another size
                    square(&mut p, x, y, m);
                    tall = 7 * m;
                    match r.below(5) {
                        0 => p.rect(x + r.below(7 * m), y, m, m, 0),
                        1 => p.rect(x + m, y + 3 * m, m, m, 1),
                        2 => p.rect(x + 2 * m, y + 2 * m, 3 * m, m * r.range(1, 2), 0),
                        3 => p.rect(x + m + r.below(m), y + 3 * m, m * r.range(1, 5), r.range(1, m), 1),
                        _ => {
                            let (l, t) = (r.range(1, 40), r.range(1, m));
                            p.rect(x + 6 * m, y + r.below(7 * m), l, t, 1);
                        }
                    }
                }
                k if k < 90 => {
                    // bars in the right proportion
                    let t = if r.chance(1, 2) { m } else { r.range(1, 3 * m) };
                    p.rect(x, y, m, t, 1);
                    p.rect(x + 2 * m, y, 3 * m, t, 1);
                    p.rect(x + 6 * m, y, m, t, 1);
                    tall = tall.max(t);
                    if r.chance(1, 6) {
                        // joined below: left and right are one region
                        p.rect(x, y + t, m, 2 * m, 1);
                        p.rect(x + 6 * m, y + t, m, 2 * m, 1);
                        p.rect(x, y + t + m, 7 * m, m, 1);
                        tall = tall.max(t + 3 * m);
                    }
                }
                _ => {
                    let (a, b) = (r.range(1, 4), r.range(1, 3));
                    p.rect(x, y, a, b, 1)
                }
            }
            x += 7 * m + r.range(0, 3);
        }
        y += tall + r.below(3);
    }
    if r.chance(1, 3) {
        scribble(r, &mut p, 20);
    }
    p
}

/// Rectangular rings around rectangular stones whose proportions lie at or
/// just beyond what counts as a finder pattern: run lengths three quarters of
/// a module off, stones of 10 or 70 percent of the ring.
pub fn borderline(r: &mut Rng) -> Picture {
    let mut p = Picture::new(r.range(120, 260), r.range(60, 200));
    let (mut x, mut y, mut tall) = (r.below(3), r.below(3), 0);
    loop {
        let avg = r.range(1, 12);
        let err = avg * 3 / 4;
        // four runs whose mean is about avg, each off by about err or not
        let off = |r: &mut Rng, k: usize| -> usize {
            let d = match r.below(6) {
                0 => err,
                1 => err + 1,
                2 => err.saturating_sub(1),
                3 => 0,
                _ => r.below(err + 2),
            };
            if r.chance(1, 2) { k * avg + d } else { (k * avg).saturating_sub(d).max(1) }
        };
        let few = r.below(5);
        let mut runs = [avg, avg, 3 * avg, avg, avg];
        for k in 0..5 {
            if r.below(5) < few.max(1) {
                runs[k] = off(r, if k == 2 { 3 } else { 1 });
            }
        }
        if r.chance(1, 2) {
            // keep the mean: what one run gains another loses
            let (i, j) = (*r.pick(&[0, 1, 3, 4]), *r.pick(&[0, 1, 3, 4]));
            if i != j && runs[i] > avg && runs[j] == avg {
                runs[j] = (2 * avg).saturating_sub(runs[i]).max(1);
            }
        }
        let w: usize = runs.iter().sum();
        let (top, bottom) = (r.range(1, avg + 1), r.range(1, avg + 1));
        let (above, below) = (r.range(1, avg + 2), r.range(1, avg + 2));
        let mut high = match r.below(3) {
            0 => 3 * avg,
            1 => r.range(1, 3 * avg),
            _ => r.range(1, 8 * avg),
        };
        if r.chance(1, 2) {
            // aim at a ratio at the limits
            let want = *r.pick(&[9usize, 10, 11, 69, 70, 71]);
            let ring = |h: usize| w * (top + bottom) + (runs[0] + runs[4]) * (h + above + below);
            if let Some(h) = (1..10 * avg).min_by_key(|&h| (runs[2] * h * 100).abs_diff(want * ring(h) + ring(h) / 2)) {
                high = h;
            }
        }
        let h = top + above + high + below + bottom;
        if x + w + 1 > p.w {
            x = r.below(3);
            y += tall + 1;
            tall = 0;
        }
        if y + 2 > p.h {
            break;
        }
        p.rect(x, y, w.min(p.w - x), h, 1);
        if x + w > p.w {
            x += w + 1;
            continue;
        }
        p.rect(x + runs[0], y + top, w - runs[0] - runs[4], h - top - bottom, 0);
        p.rect(x + runs[0] + runs[1], y + top + above, runs[2], high, 1);
        tall = tall.max(h);
        x += w + r.range(1, 3);
    }
    p
}
