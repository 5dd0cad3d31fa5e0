//! Pictures with symbols at known places.

use crate::enc::{self, Grid};
use crate::json;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Picture {
    pub w: usize,
    pub h: usize,
    /// 0 white, 1 black
    pub px: Vec<u8>,
}

impl Picture {
    pub fn new(w: usize, h: usize) -> Self {
        Picture { w, h, px: vec![0; w * h] }
    }
    pub fn at(&self, x: usize, y: usize) -> u8 {
        self.px[y * self.w + x]
    }
    pub fn set(&mut self, x: usize, y: usize, b: u8) {
        self.px[y * self.w + x] = b;
    }
    pub fn rect(&mut self, x: usize, y: usize, w: usize, h: usize, b: u8) {
        for j in y..(y + h).min(self.h) {
            for i in x..(x + w).min(self.w) {
                self.set(i, j, b);
            }
        }
    }
}

/// A symbol in a picture.  The pixel (x, y) shows the module
///   u = floor((a X + b Y + c) / D), v = floor((d X + e Y + f) / D)
/// of the drawn matrix, where X = 2x+1, Y = 2y+1, D = g X + h Y + k > 0.
#[derive(Clone, Debug)]
pub struct Drawn {
    pub v: usize,
    /// the drawn matrix (already transposed if the symbol is mirrored)
    pub mat: Grid,
    pub data: Vec<u8>,
    pub map: [i64; 9],
}

#[derive(Clone, Debug, Default)]
pub struct Scene {
    pub symbols: Vec<Drawn>,
    /// Modules around each symbol that are white; what is farther out may show
    /// anything.  0: nothing but the symbols in the picture.
    pub quiet: usize,
}

impl Drawn {
    pub fn random(r: &mut Rng, v: usize, mirrored: bool) -> Drawn {
        let (e, m) = (r.below(4), r.below(8));
        let full = *r.pick(&[20, 50, 80, 100]);
        let segs = enc::random_segs(r, v, e, full, &[1, 2, 4]);
        let s = enc::symbol(v, e, m, &enc::fill(v, e, &segs));
        let mat = if mirrored { s.grid.transposed() } else { s.grid };
        Drawn { v, mat, data: enc::payload(&segs), map: [0; 9] }
    }

    /// Given modules and message.
    pub fn of(mat: Grid, data: Vec<u8>, mirrored: bool) -> Drawn {
        let v = (mat.n - 17) / 4;
        Drawn { v, mat: if mirrored { mat.transposed() } else { mat }, data, map: [0; 9] }
    }

    /// Upright squares: top left pixel, pixels per module, quarter turns.
    pub fn place(&mut self, x: usize, y: usize, s: usize, turns: usize) {
        let (x, y, s, n) = (x as i64, y as i64, s as i64, self.mat.n as i64);
        let (k, e) = (2 * s, 2 * s * n);
        // distances (doubled, from the far side one less, so that floors agree)
        let right = [1, 0, -2 * x - 1];
        let down = [0, 1, -2 * y - 1];
        let left = [-1, 0, 2 * x + e - 1];
        let up = [0, -1, 2 * y + e - 1];
        let (u, v) = match turns % 4 {
            0 => (right, down),
            1 => (down, left),
            2 => (left, up),
            _ => (up, right),
        };
        self.map = [u[0], u[1], u[2], v[0], v[1], v[2], 0, 0, k];
    }

    /// Turned by any angle, sheared, stretched and tilted about the centre of a
    /// picture of side w.  Coefficients are rounded: what counts is `map`.
    pub fn tilt(&mut self, w: usize, s: f64, angle: f64, shear: f64, stretch: f64, tilt: (f64, f64)) {
        let n = self.mat.n as f64;
        let k = (1i64 << 17) as f64;
        // dx = (X - w) / 2; (rx, ry) = turned and sheared; d = 1 + (tx rx + ty ry) / (n s)
        let (co, si) = (angle.cos() / 2.0, angle.sin() / 2.0);
        let ry = [-si * stretch, co * stretch];
        let rx = [co - shear * si, si + shear * co];
        let d = [0, 1].map(|i| (tilt.0 * rx[i] + tilt.1 * ry[i]) / (n * s));
        let row = |r: [f64; 2]| {
            let c = [0, 1].map(|i| k * (r[i] / s + d[i] * n / 2.0));
            let c0 = k * n / 2.0 - (c[0] + c[1]) * w as f64;
            [c[0].round() as i64, c[1].round() as i64, c0.round() as i64]
        };
        let (u, v) = (row(rx), row(ry));
        let g = [(k * d[0]).round() as i64, (k * d[1]).round() as i64];
        let d0 = k - (k * d[0] + k * d[1]) * w as f64;
        self.map = [u[0], u[1], u[2], v[0], v[1], v[2], g[0], g[1], d0.round() as i64];
    }

    pub fn module(&self, x: usize, y: usize) -> Option<(usize, usize)> {
        let (x, y) = (2 * x as i64 + 1, 2 * y as i64 + 1);
        let m = &self.map;
        let d = m[6] * x + m[7] * y + m[8];
        if d <= 0 {
            return None;
        }
        let u = (m[0] * x + m[1] * y + m[2]).div_euclid(d);
        let v = (m[3] * x + m[4] * y + m[5]).div_euclid(d);
        let n = self.mat.n as i64;
        if u < 0 || v < 0 || u >= n || v >= n {
            return None;
        }
        Some((u as usize, v as usize))
    }

    /// Top left pixel of an upright symbol.
    pub fn corner(&self) -> (usize, usize) {
        let side = self.map[8] * self.mat.n as i64;
        // an axis that runs backwards starts one pixel before the far side
        let from = |a: i64, c: i64| if a > 0 { (-c - 1) / 2 } else { (c + 1 - side) / 2 };
        let m = &self.map;
        let (x, y) = if m[0] != 0 { (from(m[0], m[2]), from(m[4], m[5])) } else { (from(m[3], m[5]), from(m[1], m[2])) };
        (x as usize, y as usize)
    }

    pub fn draw(&self, p: &mut Picture) {
        for y in 0..p.h {
            for x in 0..p.w {
                if let Some((u, v)) = self.module(x, y) {
                    if self.mat.get(v, u) {
                        p.set(x, y, 1);
                    }
                }
            }
        }
    }

    fn json(&self) -> String {
        format!(
            "{{\"n\":{},\"mat\":{},\"map\":{},\"msg\":{}}}",
            self.mat.n,
            json::nums(&self.mat.bits),
            json::nums(&self.map),
            json::nums(&self.data)
        )
    }
}

impl Scene {
    pub fn json(&self) -> String {
        json::list(&self.symbols.iter().map(|s| s.json()).collect::<Vec<_>>())
    }
}
