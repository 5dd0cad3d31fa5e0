//! Searching pictures: the record of one search, with everything TLC needs to
//! check it against the specification (spec/TSearch.tla).
//!
//! The picture is written as its maximal horizontal black runs; the connected
//! regions come with a certificate (labels, spanning tree, running areas) that
//! TLC verifies, so nothing about regions is taken on trust.

use crate::ctx::{hash, par, Ctx};
use crate::json;
use crate::rng::Rng;
use crate::run;
use crate::scene::{Picture, Scene};
use crate::triage;
use rqrr::{BitGrid, PreparedImage};
use std::panic::AssertUnwindSafe;

#[derive(Clone, PartialEq, Eq, Default)]
pub struct Found {
    pub n: usize,
    pub bits: Vec<u8>,
    pub bounds: Vec<i64>,
    pub res: String,
    pub out: Vec<u8>,
}

impl Found {
    fn json(&self) -> String {
        format!(
            "{{\"n\":{},\"bits\":{},\"b\":{},\"res\":{},\"out\":{}}}",
            self.n,
            json::nums(&self.bits),
            json::nums(&self.bounds),
            json::string(&self.res),
            json::nums(&self.out)
        )
    }
}

/// Bounds far outside of the picture are all alike (and TLC's integers have 32 bits).
fn clamp(v: i32, lim: i64) -> i64 {
    (v as i64).clamp(-lim, lim)
}

/// What a caller sees of a grid.
fn look<G: BitGrid>(g: &rqrr::Grid<G>, lim: i64) -> Found {
    let n = g.grid.size();
    let mut bits = Vec::with_capacity(n * n);
    for y in 0..n {
        for x in 0..n {
            bits.push(g.grid.bit(y, x) as u8);
        }
    }
    let mut out = vec![];
    let res = match g.decode_to(&mut out) {
        Ok(_) => "Ok".to_string(),
        Err(e) => {
            out.clear();
            format!("{e:?}")
        }
    };
    let bounds = g.bounds.iter().flat_map(|p| [clamp(p.x, lim), clamp(p.y, lim)]).collect();
    Found { n, bits, bounds, res, out }
}

/// Uniformly coloured runs of non-white pixels: (y, x, len, colour)
fn shades<S: ShadeOf>(img: &S, w: usize, h: usize) -> Vec<i64> {
    let mut v = vec![];
    for y in 0..h {
        let mut x = 0;
        while x < w {
            let c = img.shade(x, y);
            let x0 = x;
            while x < w && img.shade(x, y) == c {
                x += 1;
            }
            if c != 0 {
                v.extend_from_slice(&[y as i64, x0 as i64, (x - x0) as i64, c as i64]);
            }
        }
    }
    v
}

pub trait ShadeOf {
    fn shade(&self, x: usize, y: usize) -> u8;
}
macro_rules! shade_of {
    ($t:ty) => {
        impl ShadeOf for PreparedImage<$t> {
            fn shade(&self, x: usize, y: usize) -> u8 {
                self.get_pixel_at(x, y).into()
            }
        }
    };
}
shade_of!(image::GrayImage);

/// The type of `prepare_from_bitmap`'s buffer is not nameable, hence generic.
macro_rules! shades_of {
    ($img:expr, $w:expr, $h:expr) => {{
        let mut px = vec![0u8; $w * $h];
        for y in 0..$h {
            for x in 0..$w {
                px[y * $w + x] = $img.get_pixel_at(x, y).into();
            }
        }
        shades(&Flat { w: $w, px }, $w, $h)
    }};
}
struct Flat {
    w: usize,
    px: Vec<u8>,
}
impl ShadeOf for Flat {
    fn shade(&self, x: usize, y: usize) -> u8 {
        self.px[y * self.w + x]
    }
}

#[derive(Clone, Default)]
pub struct Outcome {
    pub grids: Vec<Found>,
    pub after: Vec<i64>,
    /// grids and shades of searching the same prepared image again
    pub again: Vec<Found>,
    pub after2: Vec<i64>,
    /// a clone searched before the original, and the original then
    pub clone: Vec<Found>,
    pub untouched: bool,
    /// a clone of the searched image searched
    pub late: Vec<Found>,
    /// the same picture in a caller's buffer
    pub buffer: Vec<Found>,
    pub buffer_after: Vec<i64>,
    /// prepared from grey values, by function and from a buffer
    pub grey: Vec<Found>,
    pub grey_after: Vec<i64>,
    pub grey_buffer: Vec<Found>,
    pub grey_buffer_after: Vec<i64>,
}

/// Search a picture in every way.
pub fn search(p: &Picture, full: bool) -> Result<Outcome, String> {
    let lim = 30_000.max(2 * p.w.max(p.h) as i64);
    let r = run::catch_unwind(AssertUnwindSafe(|| {
        let mut o = Outcome { untouched: true, ..Default::default() };
        let mut img = PreparedImage::prepare_from_bitmap(p.w, p.h, |x, y| p.at(x, y) == 1);
        if full {
            let mut c = img.clone();
            o.clone = c.detect_grids().iter().map(|g| look(g, lim)).collect();
            for y in 0..p.h {
                for x in 0..p.w {
                    if img.get_pixel_at(x, y) != p.at(x, y) {
                        o.untouched = false;
                    }
                }
            }
        }
        o.grids = img.detect_grids().iter().map(|g| look(g, lim)).collect();
        o.after = shades_of!(img, p.w, p.h);
        if full {
            let mut c = img.clone();
            o.late = c.detect_grids().iter().map(|g| look(g, lim)).collect();
            o.again = img.detect_grids().iter().map(|g| look(g, lim)).collect();
            o.after2 = shades_of!(img, p.w, p.h);
            let mut b = PreparedImage::without_preparation(
                image::GrayImage::from_raw(p.w as u32, p.h as u32, p.px.clone()).unwrap(),
            );
            o.buffer = b.detect_grids().iter().map(|g| look(g, lim)).collect();
            o.buffer_after = shades(&b, p.w, p.h);
        }
        o
    }));
    r.map_err(run::panic_text)
}

/// Threshold grey values and search: the black and white picture, searched as
/// a bitmap and as it was prepared.
pub fn search_grey(w: usize, h: usize, g: &[u8]) -> Result<(Picture, Outcome), String> {
    let lim = 30_000.max(2 * w.max(h) as i64);
    let r = run::catch_unwind(AssertUnwindSafe(|| {
        let mut a = PreparedImage::prepare_from_greyscale(w, h, |x, y| g[y * w + x]);
        let mut p = Picture::new(w, h);
        for y in 0..h {
            for x in 0..w {
                p.px[y * w + x] = a.get_pixel_at(x, y).into();
            }
        }
        let mut b = PreparedImage::prepare(image::GrayImage::from_raw(w as u32, h as u32, g.to_vec()).unwrap());
        let mut o = search(&p, false)?;
        o.grey = a.detect_grids().iter().map(|g| look(g, lim)).collect();
        o.grey_after = shades_of!(a, w, h);
        o.grey_buffer = b.detect_grids().iter().map(|g| look(g, lim)).collect();
        o.grey_buffer_after = shades(&b, w, h);
        Ok((p, o))
    }));
    r.map_err(run::panic_text).and_then(|x| x)
}

/// Runs and the certificate for their connected regions.
pub struct Runs {
    pub bl: Vec<i64>,
    pub rs: Vec<i64>,
    pub lo: Vec<i64>,
    pub hi: Vec<i64>,
    pub lab: Vec<i64>,
    pub par: Vec<i64>,
    pub dep: Vec<i64>,
    pub prv: Vec<i64>,
    pub nxt: Vec<i64>,
    pub acc: Vec<i64>,
    pub ar: Vec<i64>,
}

pub fn runs(p: &Picture) -> Runs {
    let mut r: Vec<(usize, usize, usize)> = vec![];
    let mut rs = vec![1i64];
    for y in 0..p.h {
        let mut x = 0;
        while x < p.w {
            if p.at(x, y) == 0 {
                x += 1;
                continue;
            }
            let x0 = x;
            while x < p.w && p.at(x, y) == 1 {
                x += 1;
            }
            r.push((y, x0, x - x0));
        }
        rs.push(r.len() as i64 + 1);
    }
    let n = r.len();
    let (mut lo, mut hi) = (vec![1i64; n], vec![0i64; n]);
    let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..n {
        let (y, x, l) = r[i];
        if y == 0 {
            continue;
        }
        let (a, z) = (rs[y - 1] as usize - 1, rs[y] as usize - 1);
        let mut j = a;
        while j < z && r[j].1 + r[j].2 <= x {
            j += 1;
        }
        lo[i] = j as i64 + 1;
        while j < z && r[j].1 < x + l {
            adj[i].push(j);
            adj[j].push(i);
            j += 1;
        }
        hi[i] = j as i64;
    }
    let mut lab = vec![0i64; n];
    let mut par = vec![0i64; n];
    let mut dep = vec![0i64; n];
    for i in 0..n {
        if lab[i] != 0 {
            continue;
        }
        lab[i] = i as i64 + 1;
        let mut q = std::collections::VecDeque::from([i]);
        while let Some(a) = q.pop_front() {
            for &b in &adj[a] {
                if lab[b] == 0 {
                    lab[b] = i as i64 + 1;
                    par[b] = a as i64 + 1;
                    dep[b] = dep[a] + 1;
                    q.push_back(b);
                }
            }
        }
    }
    let (mut prv, mut nxt, mut acc, mut ar) = (vec![0i64; n], vec![0i64; n], vec![0i64; n], vec![0i64; n]);
    let mut last = vec![usize::MAX; n];
    for i in 0..n {
        let k = lab[i] as usize - 1;
        acc[i] = r[i].2 as i64;
        if last[k] != usize::MAX {
            let j = last[k];
            prv[i] = j as i64 + 1;
            nxt[j] = i as i64 + 1;
            acc[i] += acc[j];
        }
        last[k] = i;
        ar[k] = acc[i];
    }
    let bl = r.iter().flat_map(|t| [t.0 as i64, t.1 as i64, t.2 as i64]).collect();
    Runs { bl, rs, lo, hi, lab, par, dep, prv, nxt, acc, ar }
}

fn list(v: &[Found]) -> String {
    json::list(&v.iter().map(|f| f.json()).collect::<Vec<_>>())
}

/// The trace record.
pub fn record(id: &str, ask: &[&str], p: &Picture, o: &Outcome, scene: Option<&Scene>) -> String {
    let r = runs(p);
    let mut s = format!(
        "{{\"id\":{},\"ask\":{},\"w\":{},\"h\":{},\"bl\":{},\"rs\":{},\"lo\":{},\"hi\":{},\"lab\":{},\"par\":{},\"dep\":{},\"prv\":{},\"nxt\":{},\"acc\":{},\"ar\":{}",
        json::string(id),
        json::list(&ask.iter().map(|a| json::string(a)).collect::<Vec<_>>()),
        p.w,
        p.h,
        json::nums(&r.bl),
        json::nums(&r.rs),
        json::nums(&r.lo),
        json::nums(&r.hi),
        json::nums(&r.lab),
        json::nums(&r.par),
        json::nums(&r.dep),
        json::nums(&r.prv),
        json::nums(&r.nxt),
        json::nums(&r.acc),
        json::nums(&r.ar)
    );
    s += &format!(
        ",\"grids\":{},\"al\":{},\"again\":{},\"al2\":{},\"clone\":{},\"unt\":{},\"late\":{},\"buf\":{},\"albuf\":{}",
        list(&o.grids),
        json::nums(&o.after),
        list(&o.again),
        json::nums(&o.after2),
        list(&o.clone),
        o.untouched,
        list(&o.late),
        list(&o.buffer),
        json::nums(&o.buffer_after)
    );
    s += &format!(",\"gg\":{},\"alg\":{},\"gb\":{},\"algb\":{}",
        list(&o.grey),
        json::nums(&o.grey_after),
        list(&o.grey_buffer),
        json::nums(&o.grey_buffer_after)
    );
    s += &format!(",\"sc\":{},\"quiet\":{}}}", scene.map(|s| s.json()).unwrap_or_else(|| "[]".into()), scene.map(|s| s.quiet).unwrap_or(0));
    s
}

pub fn rle(p: &Picture) -> String {
    let r = runs(p);
    format!("{{\"w\":{},\"h\":{},\"bl\":{}}}", p.w, p.h, json::nums(&r.bl))
}

/// Run pictures through the search; emit records or violations.
pub fn suite<F>(ctx: &mut Ctx, tag: &str, n: usize, full: bool, ask: &[&str], make: F)
where
    F: Fn(&mut Rng, usize) -> (Picture, Option<Scene>) + Sync,
{
    let seed = ctx.seed;
    let out = {
        let cx = &*ctx;
        par(n, |w, k| {
            let mut r = Rng::for_case(seed, tag, k as u64);
            let (p, sc) = make(&mut r, k);
            let id = format!("{tag}-{k}");
            cx.begin(w, || format!("{{\"case\":{},\"picture\":{}}}", json::string(&id), rle(&p)));
            let o = search(&p, full);
            cx.end(w);
            let h = hash(&(p.w, p.h, &p.px));
            match o {
                Ok(o) => {
                    let found = (o.grids.len(), o.grids.iter().filter(|g| g.res == "Ok").count());
                    (Ok(record(&id, ask, &p, &o, sc.as_ref())), h, found, p.w * p.h)
                }
                Err(e) => (Err((e, rle(&p))), h, (0, 0), 0),
            }
        })
    };
    for (rec, h, found, cost) in out {
        ctx.eval(h);
        match rec {
            Ok(line) => {
                let c = line.len() as u64 + cost as u64;
                ctx.emit(&line, c);
                ctx.count("grids", found.0 as u64);
                ctx.count("decoded", found.1 as u64);
            }
            Err((e, pic)) => ctx.violation(&format!("searching a picture panics: {e}"), pic),
        }
    }
}

/// Many more pictures: only searches that look wrong go to TLC.
pub fn sweep<F>(ctx: &mut Ctx, tag: &str, n: usize, full: bool, ask: &[&str], make: F)
where
    F: Fn(&mut Rng, usize) -> (Picture, Option<Scene>) + Sync,
{
    let seed = ctx.seed;
    let name = format!("{tag}-sweep");
    let sent = std::sync::atomic::AtomicUsize::new(0);
    let out = {
        let cx = &*ctx;
        par(n, |w, k| {
            let mut r = Rng::for_case(seed, &name, k as u64);
            let (p, sc) = make(&mut r, k);
            cx.begin(w, || format!("{{\"case\":\"{name}-{k}\",\"picture\":{}}}", rle(&p)));
            let o = search(&p, full);
            cx.end(w);
            let h = hash(&(p.w, p.h, &p.px));
            match o {
                Ok(o) => {
                    let send = triage::odd(ask, &runs(&p), &o, sc.as_ref()) && sent.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < 16;
                    (Ok(send.then(|| record(&format!("{name}-{k}"), ask, &p, &o, sc.as_ref()))), h, p.w * p.h)
                }
                Err(e) => (Err((e, rle(&p))), h, 0),
            }
        })
    };
    for (rec, h, cost) in out {
        ctx.eval(h);
        ctx.count("swept", 1);
        match rec {
            Ok(Some(line)) => {
                let c = line.len() as u64 + cost as u64;
                ctx.count("swept-to-tlc", 1);
                ctx.emit(&line, c);
            }
            Ok(None) => {}
            Err((e, pic)) => ctx.violation(&format!("searching a picture panics: {e}"), pic),
        }
    }
}
