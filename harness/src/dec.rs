//! Suites about decoding a grid.

use crate::ctx::{hash, par, Ctx};
use crate::enc::{self, Grid, Seg};
use crate::json;
use crate::rng::Rng;
use crate::run::{self, Act, Script};

pub struct Case {
    pub id: String,
    pub g: Grid,
    /// scripted writer actions; None = accepts everything
    pub acts: Option<Vec<Act>>,
    /// intended message and result, where the generator knows
    pub want: Option<(Vec<u8>, &'static str)>,
    /// also call the String returning decoder
    pub string: bool,
    /// what is special about it
    pub note: String,
}

impl Case {
    pub fn new(id: String, g: Grid) -> Self {
        Case { id, g, acts: None, want: None, string: true, note: String::new() }
    }
}

pub struct Done {
    pub line: String,
    pub n: usize,
    pub res: String,
    pub out: Vec<u8>,
    pub bad: Option<String>,
    pub hash: u64,
    pub sample: String,
}

/// Execute a case on the real decoder and turn it into a trace record.
pub fn exec(c: &Case) -> Done {
    let w = match &c.acts {
        None => Script::plain(),
        Some(a) => Script::new(a.clone()),
    };
    let d = run::decode_to(&c.g, w);
    let s = if c.string { Some(run::decode_string(&c.g)) } else { None };
    let mut bad = None;
    if let Some(p) = &d.panic {
        bad = Some(format!("decode_to panicked: {p}"));
    }
    if let Some(Some(p)) = s.as_ref().map(|s| s.panic.clone()) {
        bad = Some(format!("decode panicked: {p}"));
    }
    if d.oob {
        bad = Some("grid read outside its bounds".into());
    }
    let ev: Vec<String> = d
        .writes
        .iter()
        .map(|w| format!("{{\"o\":{},\"r\":{}}}", json::nums(&w.offered), w.resp))
        .collect();
    let (want, wres, has) = match &c.want {
        Some((w, r)) => (json::nums(w), *r, true),
        None => ("[]".into(), "", false),
    };
    let (ss, st, sm) = match &s {
        Some(s) => (s.res.clone(), json::nums(&s.text), s.meta.clone()),
        None => ("".into(), "[]".into(), run::Meta::default()),
    };
    let line = format!(
        "{{\"id\":{},\"n\":{},\"g\":{},\"ev\":[{}],\"res\":\"{}\",\"v\":{},\"e\":{},\"m\":{},\"s\":\"{}\",\"st\":{},\"sv\":{},\"se\":{},\"sm\":{},\"w\":{},\"want\":{},\"wres\":\"{}\"}}",
        json::string(&c.id),
        c.g.n,
        json::nums(&c.g.bits),
        ev.join(","),
        d.res,
        d.meta.v,
        d.meta.e,
        d.meta.m,
        ss,
        st,
        sm.v,
        sm.e,
        sm.m,
        has,
        want,
        wres
    );
    let out = d.out();
    let sample = format!(
        "{{\"id\":{},\"size\":{},\"note\":{},\"result\":\"{}\",\"bytes_out\":{}}}",
        json::string(&c.id),
        c.g.n,
        json::string(&c.note),
        d.res,
        out.len()
    );
    Done { line, n: c.g.n, res: d.res, out, bad, hash: hash(&(&c.g.bits, c.acts.as_ref().map(|a| format!("{a:?}")))), sample }
}

/// Cost estimate of validating a record with TLC.
fn cost(n: usize) -> u64 {
    (n * n) as u64 + 200
}

/// Run cases in parallel and emit them all; big symbols of the same version
/// go to the same shard so that its layout table is built once.
pub fn record<F: Fn(usize) -> Case + Sync>(ctx: &mut Ctx, n: usize, make: F) {
    let done = {
        let cx = &*ctx;
        par(n, |w, k| {
            let c = make(k);
            cx.begin(w, || format!("{{\"case\":{}}}", json::string(&c.id)));
            let d = exec(&c);
            cx.end(w);
            d
        })
    };
    for d in done {
        if let Some(b) = &d.bad {
            ctx.violation(b, d.line.clone());
        }
        ctx.eval(d.hash);
        let key = format!("result_{}", d.res);
        ctx.count(&key, 1);
        ctx.sample(d.sample);
        ctx.emit(&d.line, cost(d.n));
    }
}

fn vem(k: usize) -> (usize, usize, usize) {
    (k / 32 % 40 + 1, k / 8 % 4, k % 8)
}

/// Every version, level and mask, undamaged.
pub fn clean(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let rounds = ctx.amount(1, 6);
    record(ctx, 1280 * rounds, |k| {
        let (v, e, m) = vem(k);
        let mut r = Rng::for_case(seed, "clean", k as u64);
        let frac = *r.pick(&[100, 100, 100, 60, 20]);
        let modes: &[usize] = match r.below(4) {
            0 => &[1, 2, 4, 8, 7],
            1 => &[4],
            2 => &[1, 2],
            _ => &[8, 4, 7],
        };
        let mut segs = enc::random_segs(&mut r, v, e, frac, modes);
        if r.chance(1, 3) {
            // text, so that the String interface has something to return
            let room = enc::data_capacity(v, e) * 8;
            let mx = enc::max_chars(4, v, room);
            let t: Vec<u8> = "Grüße, 世界! ".bytes().cycle().take(mx / 18 * 18).collect();
            segs = vec![Seg::Byte(t)];
        }
        let s = enc::symbol(v, e, m, &enc::fill(v, e, &segs));
        let mut c = Case::new(format!("clean-{k}-v{v}e{e}m{m}"), s.grid);
        c.want = Some((enc::payload(&segs), "Ok"));
        c.note = format!("modes {:?}, {}% full", segs.iter().map(|s| s.mode()).collect::<Vec<_>>(), frac);
        c
    });
}

/// Ways of spreading damage over a block.
fn damage_positions(r: &mut Rng, style: usize, len: usize, dw: usize, t: usize) -> Vec<usize> {
    match style {
        0 => r.distinct(t, len),
        // a burst
        1 => {
            let s = r.below(len);
            (0..t).map(|k| (s + k) % len).collect()
        }
        // parity only / data only, as far as they go
        2 => (0..t).map(|k| len - 1 - k % (len - dw)).collect(),
        3 => (0..t).map(|k| k % dw).collect::<Vec<_>>(),
        // the two ends
        _ => (0..t).map(|k| if k % 2 == 0 { k / 2 } else { len - 1 - k / 2 }).collect(),
    }
    .into_iter()
    .collect::<std::collections::BTreeSet<_>>()
    .into_iter()
    .collect()
}

/// XOR codewords of block `b` in the grid.
fn hit(g: &mut Grid, zz: &[(usize, usize)], bl: &enc::Blocks, b: usize, pos: usize, x: u8) {
    let i = enc::interleave_index(bl, b, pos);
    for k in 0..8 {
        if x >> (7 - k) & 1 != 0 {
            let (y, xx) = zz[8 * i + k];
            g.flip(y, xx);
        }
    }
}

fn nonzero(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => 1 << r.below(8),
        1 => 0xff,
        _ => r.range(1, 255) as u8,
    }
}

fn damage_format(r: &mut Rng, g: &mut Grid, copy: usize, k: usize) {
    let cells = enc::format_cells(g.n, copy);
    for i in r.distinct(k, 15) {
        g.flip(cells[i].0, cells[i].1);
    }
}

/// Mostly byte payloads, sometimes everything.
fn some_segs(r: &mut Rng, v: usize, e: usize) -> Vec<Seg> {
    let modes: &[usize] = if r.chance(1, 2) { &[4] } else { &[1, 2, 4, 8, 7] };
    let frac = *r.pick(&[100, 70, 30]);
    enc::random_segs(r, v, e, frac, modes)
}

/// A symbol whose blocks all carry as much damage as can be corrected (or a
/// little less), and format copies damaged within their capacity.
pub fn damaged_symbol(r: &mut Rng, v: usize, e: usize, m: usize, full: bool) -> (Grid, Vec<u8>, String) {
    let segs = some_segs(r, v, e);
    let s = enc::symbol(v, e, m, &enc::fill(v, e, &segs));
    let bl = enc::blocks(v, e);
    let zz = enc::zigzag(v);
    let mut g = s.grid;
    let t = bl.npar / 2;
    let style = r.below(5);
    let mut tot = 0;
    for b in 0..bl.data.len() {
        let k = if full || r.chance(3, 4) { t } else { r.range(0, t) };
        let len = bl.data[b] + bl.npar;
        for p in damage_positions(r, style, len, bl.data[b], k) {
            hit(&mut g, &zz, &bl, b, p, nonzero(r));
            tot += 1;
        }
    }
    // remainder bits carry no data: damage there never matters
    for k in 8 * s.codewords.len()..zz.len() {
        if r.chance(1, 2) {
            g.flip(zz[k].0, zz[k].1);
        }
    }
    let f = r.below(4);
    if f == 1 {
        let k = r.range(0, 3);
        damage_format(r, &mut g, 0, k);
        let k = r.range(0, 15);
        damage_format(r, &mut g, 1, k);
    }
    (g, enc::payload(&segs), format!("v{v} e{e} m{m}: {tot} codewords damaged, style {style}, {t} per block correctable, format damage {f}"))
}

/// A blot over neighbouring modules, as large as can be corrected.
pub fn blotted_symbol(r: &mut Rng, v: usize, e: usize, m: usize) -> (Grid, Vec<u8>) {
    let segs = some_segs(r, v, e);
    let s = enc::symbol(v, e, m, &enc::fill(v, e, &segs));
    let bl = enc::blocks(v, e);
    let zz = enc::zigzag(v);
    let n = s.grid.n;
    let total = s.codewords.len();
    let mut of = vec![0usize; total];
    for b in 0..bl.data.len() {
        for k in 0..bl.data[b] + bl.npar {
            of[enc::interleave_index(&bl, b, k)] = b;
        }
    }
    let mut best = s.grid.clone();
    let (cx, cy, round, ink) = (r.below(n) as i64, r.below(n) as i64, r.chance(1, 2), r.below(3));
    for rad in 1..n as i64 {
        let mut g = s.grid.clone();
        let mut bad = vec![false; total];
        for (i, &(y, x)) in zz.iter().enumerate() {
            let (dx, dy) = (x as i64 - cx, y as i64 - cy);
            let inside = if round { dx * dx + dy * dy <= rad * rad } else { dx.abs().max(dy.abs()) <= rad };
            let b = [false, true, r.chance(1, 2)][ink];
            if inside && g.get(y, x) != b {
                g.set(y, x, b);
                if i < 8 * total {
                    bad[i / 8] = true;
                }
            }
        }
        let mut per = vec![0; bl.data.len()];
        for c in 0..total {
            per[of[c]] += bad[c] as usize;
        }
        if per.iter().any(|&k| k > bl.npar / 2) {
            break;
        }
        best = g;
    }
    (best, enc::payload(&segs))
}

/// Damage up to the correction capacity in every block.
pub fn damage(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let rounds = ctx.amount(2, 10);
    record(ctx, 160 * rounds, |k| {
        let (v, e) = (k % 160 / 4 + 1, k % 4);
        let mut r = Rng::for_case(seed, "damage", k as u64);
        let m = r.below(8);
        let (g, want, note) = damaged_symbol(&mut r, v, e, m, true);
        let mut c = Case::new(format!("damage-{k}-v{v}e{e}m{m}"), g);
        c.want = Some((want, "Ok"));
        c.note = note;
        c.string = k % 4 == 0;
        c
    });
    // bulk: the generator knows the message; whatever disagrees is put into
    // the trace, where the specification decides
    let n = ctx.amount(12_000, 400_000);
    let bad = {
        let cx = &*ctx;
        par(n, |w, k| {
            let mut r = Rng::for_case(seed, "damage-bulk", k as u64);
            let v = if r.chance(4, 5) { r.range(1, 12) } else { r.range(13, 40) };
            let e = r.below(4);
            let m = r.below(8);
            let full = r.chance(2, 3);
            let (g, want, note) = damaged_symbol(&mut r, v, e, m, full);
            let id = format!("damagebulk-{k}-v{v}e{e}m{m}");
            cx.begin(w, || format!("{{\"case\":{}}}", json::string(&id)));
            let d = run::decode_to(&g, Script::plain());
            cx.end(w);
            let h = hash(&g.bits);
            if d.res != "Ok" || d.out() != want || d.meta.v != v as i64 || d.meta.e != e as i64 || d.meta.m != m as i64 || d.oob {
                let mut c = Case::new(id, g);
                c.want = Some((want, "Ok"));
                c.note = note;
                (h, Some(c))
            } else {
                (h, None)
            }
        })
    };
    for (h, c) in bad {
        ctx.eval(h);
        ctx.count("bulk", 1);
        if let Some(c) = c {
            let d = exec(&c);
            ctx.count("bulk_disagreements", 1);
            if let Some(b) = &d.bad {
                ctx.violation(b, d.line.clone());
            }
            if ctx.counts["bulk_disagreements"] <= 200 {
                ctx.emit(&d.line, cost(d.n));
            }
        }
    }
}

/// More damage than can be corrected.
pub fn beyond(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let make = |tag: &'static str, k: usize, big: bool| {
        let mut r = Rng::for_case(seed, tag, k as u64);
        let v = if big { r.range(5, 40) } else { *r.pick(&[1, 1, 1, 2, 2, 3, 4]) };
        let e = if big { r.below(4) } else { *r.pick(&[1, 1, 0, 2, 3]) };
        let m = r.below(8);
        let segs = some_segs(&mut r, v, e);
        let s = enc::symbol(v, e, m, &enc::fill(v, e, &segs));
        let bl = enc::blocks(v, e);
        let zz = enc::zigzag(v);
        let mut g = s.grid;
        let t = bl.npar / 2;
        // one block beyond capacity is enough; it may be any one
        let b = match r.below(3) {
            0 => 0,
            1 => bl.data.len() - 1,
            _ => r.below(bl.data.len()),
        };
        let len = bl.data[b] + bl.npar;
        let cnt = match r.below(4) {
            0 => t + 1,
            1 => t + 2,
            2 => r.range(t + 1, bl.npar),
            _ => r.range(t + 1, len),
        };
        for p in r.distinct(cnt.min(len), len) {
            hit(&mut g, &zz, &bl, b, p, nonzero(&mut r));
        }
        for o in 0..bl.data.len() {
            if o != b {
                let k = r.range(0, t);
                for p in r.distinct(k, bl.data[o] + bl.npar) {
                    hit(&mut g, &zz, &bl, o, p, nonzero(&mut r));
                }
            }
        }
        let mut c = Case::new(format!("{tag}-{k}-v{v}e{e}m{m}"), g);
        c.note = format!("{cnt} of {len} codewords of block {b} damaged, {t} correctable");
        c.string = k % 3 == 0;
        c
    };
    let n = ctx.amount(1600, 12_000);
    record(ctx, n, |k| make("beyond", k, false));
    let n = ctx.amount(80, 600);
    record(ctx, n, |k| make("beyondbig", k, true));
    // bulk: anything but a clean refusal goes to the specification
    let n = ctx.amount(20_000, 400_000);
    let res = {
        let cx = &*ctx;
        par(n, |w, k| {
            let c = make("beyondbulk", k, k % 4 == 0);
            cx.begin(w, || format!("{{\"case\":{}}}", json::string(&c.id)));
            let d = run::decode_to(&c.g, Script::plain());
            cx.end(w);
            let h = hash(&c.g.bits);
            let refused = d.res == "DataEcc" && d.writes.is_empty() && !d.oob;
            (h, if refused { None } else { Some(c) })
        })
    };
    let cap = ctx.amount(900, 20_000) as u64;
    for (h, c) in res {
        ctx.eval(h);
        ctx.count("bulk", 1);
        match c {
            None => ctx.count("bulk_refused", 1),
            Some(c) => {
                ctx.count("bulk_accepted_or_other", 1);
                let d = exec(&c);
                if let Some(b) = &d.bad {
                    ctx.violation(b, d.line.clone());
                }
                // anything other than Ok is certainly worth a look; Ok's are
                // expected miscorrections, sampled when there are many
                if d.res != "Ok" || ctx.counts["bulk_accepted_or_other"] <= cap {
                    ctx.emit(&d.line, cost(d.n));
                }
            }
        }
    }
}

/// Data stream fuzz and systematic segment boundaries.
/// Well-formed segments of exactly so many bits.
fn prefix(r: &mut Rng, v: usize, bits: usize) -> Option<enc::Bits> {
    let mut b = enc::Bits::default();
    // a long segment first, leaving something to adjust
    if bits > 140 {
        Seg::random(r, 4, (bits - 100) / 8).put(v, &mut b);
    }
    let want = bits - b.len();
    let items: Vec<(usize, usize, usize)> =
        (0..6).flat_map(|n| [1, 2, 4, 8].map(|m| (m, n, { let mut t = enc::Bits::default(); Seg::random(&mut Rng::new(1), m, n).put(v, &mut t); t.len() }))).collect();
    // shortest chains of segments by length
    let mut via: Vec<Option<usize>> = vec![None; want + 1];
    for at in 0..=want {
        if at > 0 && via[at].is_none() {
            continue;
        }
        for k in 0..items.len() {
            let to = at + items[k].2;
            if to <= want && via[to].is_none() {
                via[to] = Some(k);
            }
        }
    }
    let mut at = want;
    let mut chain = vec![];
    while at > 0 {
        let k = via[at]?;
        chain.push(k);
        at -= items[k].2;
    }
    for k in chain {
        Seg::random(r, items[k].0, items[k].1).put(v, &mut b);
    }
    Some(b)
}

pub fn segments(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let mut cases: Vec<(String, usize, usize, Vec<u8>, Option<(Vec<u8>, &'static str)>)> = vec![];
    let raw = |v, e, b: enc::Bits| -> Vec<u8> { enc::fill_bits(v, e, b, true) };

    // every value of every character group, in each band of versions
    let mut put_segs = |name: String, v: usize, e: usize, segs: Vec<Seg>| {
        let want = enc::payload(&segs);
        cases.push((name, v, e, enc::fill(v, e, &segs), Some((want, "Ok"))));
    };
    let mut k = 0;
    while k < 8192 {
        let mx = enc::max_chars(8, 40, enc::data_capacity(40, 1) * 8);
        let to = (k + mx).min(8192);
        put_segs(format!("kanji-{k}"), 40, 1, vec![Seg::Kanji((k as u16..to as u16).collect())]);
        k = to;
    }
    for &(v, e) in &[(27usize, 1usize), (26, 1)] {
        let d: Vec<u8> = (0..1000).flat_map(|x| format!("{x:03}").into_bytes()).collect();
        put_segs(format!("numeric-triples-v{v}"), v, e, vec![Seg::Num(d)]);
    }
    for &v in &[9usize, 10, 26, 27] {
        let segs: Vec<Seg> = (0..100).map(|x| Seg::Num(format!("{x:02}").into_bytes())).chain((0..10).map(|x| Seg::Num(format!("{x}").into_bytes()))).collect();
        let mut part = vec![];
        let mut bits = 0;
        let cap = enc::data_capacity(v, 1) * 8;
        let mut n = 0;
        for s in segs.into_iter().chain((0..45).map(|x| Seg::Alnum(vec![enc::ALNUM[x]]))) {
            if bits + s.bits(v) > cap {
                put_segs(format!("short-groups-v{v}-{n}"), v, 1, std::mem::take(&mut part));
                bits = 0;
                n += 1;
            }
            bits += s.bits(v);
            part.push(s);
        }
        put_segs(format!("short-groups-v{v}-{n}"), v, 1, part);
    }
    {
        let d: Vec<u8> = (0..2025).flat_map(|x| [enc::ALNUM[x / 45], enc::ALNUM[x % 45]]).collect();
        put_segs("alnum-pairs".into(), 40, 1, vec![Seg::Alnum(d)]);
        put_segs("bytes".into(), 12, 1, vec![Seg::Byte((0..=255).collect())]);
        put_segs("bytes".into(), 9, 1, vec![Seg::Byte((0..=219).collect())]);
    }
    // count fields around the band boundaries, all modes, longest that fits
    for &v in &[1usize, 8, 9, 10, 11, 25, 26, 27, 28, 39, 40] {
        for mode in [1, 2, 4, 8] {
            let mut r = Rng::for_case(seed, "band", (v * 10 + mode) as u64);
            let cap = enc::data_capacity(v, 1) * 8;
            let mx = enc::max_chars(mode, v, cap);
            for len in [mx, mx.saturating_sub(1), 255.min(mx), 256.min(mx), 0, 1] {
                if v >= 25 && len != mx && len > 256 {
                    continue;
                }
                put_segs(format!("band-v{v}-mode{mode}-len{len}"), v, 1, vec![Seg::random(&mut r, mode, len)]);
            }
        }
    }
    // every ECI designator length; the designator's first byte
    for b in 0..256usize {
        for &(v, e) in &[(1usize, 1usize)] {
            let mut r = Rng::for_case(seed, "eci", b as u64);
            let mut bits = enc::Bits::default();
            bits.put(7, 4);
            bits.put(b, 8);
            if b >= 0x80 {
                bits.put(r.below(256), 8);
            }
            if b >= 0xc0 {
                bits.put(r.below(256), 8);
            }
            Seg::Byte(vec![65, 66, 67]).put(v, &mut bits);
            cases.push((format!("eci-{b}"), v, e, raw(v, e, bits), None));
        }
    }
    // systematic: prefix, then a segment of every mode and count at the edge
    // of the data, where it fits exactly, or not quite
    for pre in 0..10usize {
        for mode in 0..16usize {
            let counts: Vec<usize> = if [1, 2, 4, 8].contains(&mode) { (0..=24).chain([31, 100, 255]).collect() } else { vec![0, 1] };
            for cnt in counts {
                let (v, e) = *[(1usize, 2usize), (1, 3)].get((pre + cnt) % 2).unwrap();
                let cap = enc::data_capacity(v, e) * 8;
                let mut r = Rng::for_case(seed, "edge", ((pre * 16 + mode) * 1000 + cnt) as u64);
                let mut b = enc::Bits::default();
                if pre > 0 {
                    if pre % 2 == 1 {
                        Seg::random(&mut r, 1, pre - 1).put(v, &mut b);
                    } else {
                        Seg::random(&mut r, 2, pre / 2).put(v, &mut b);
                    }
                }
                b.put(mode, 4);
                if [1, 2, 4, 8].contains(&mode) {
                    b.put(cnt, enc::count_bits(mode, v));
                }
                while b.len() < cap {
                    // keep groups in range most of the time: leading zero bits
                    let z = r.below(2);
                    b.put(z, 1);
                    let x = r.below(4);
                    b.put(x, 2);
                }
                b.0.truncate(cap);
                let dat: Vec<u8> = b.0.chunks(8).map(|c| c.iter().fold(0u8, |a, x| a << 1 | x)).collect();
                cases.push((format!("edge-{pre}-{mode}-{cnt}"), v, e, dat, None));
            }
        }
    }
    // systematic: every number of bits left for the last segment, by every
    // segment that nearly fits
    for &(v, e, step) in if ctx.thorough { &[(1usize, 2usize, 1usize), (10, 2, 1), (27, 2, 1)][..] } else { &[(1, 2, 1), (10, 2, 5)] } {
        let cap = enc::data_capacity(v, e) * 8;
        let mut turn = 0;
        for left in 4..=64usize {
            for mode in [1usize, 2, 4, 8, 7] {
                let lasts: Vec<(usize, usize)> = if mode == 7 {
                    [0usize, 0x7f, 0x80, 0xbf, 0xc0, 0xdf].iter().map(|&b| (b, 0)).collect()
                } else {
                    let head = 4 + enc::count_bits(mode, v);
                    (0..12)
                        .map(|c| (c, head + match mode { 1 => c / 3 * 10 + [0, 4, 7][c % 3], 2 => c / 2 * 11 + c % 2 * 6, 4 => 8 * c, _ => 13 * c }))
                        .filter(|&(_, need)| need + 11 >= left && need <= left + 14)
                        .collect()
                };
                for (what, _) in lasts {
                    turn += 1;
                    if turn % step != 0 {
                        continue;
                    }
                    let mut r = Rng::for_case(seed, "cut", ((v * 100 + left) * 16 + mode) as u64 * 256 + what as u64);
                    let Some(mut b) = prefix(&mut r, v, cap - left) else { continue };
                    b.put(mode, 4);
                    if mode == 7 {
                        b.put(what, 8);
                    } else {
                        b.put(what, enc::count_bits(mode, v));
                        let (w, m) = match mode { 1 => (10, 1000), 2 => (11, 2025), 4 => (8, 256), _ => (13, 8000) };
                        let short = match (mode, what % 3, what % 2) { (1, 1, _) => Some((4, 10)), (1, 2, _) => Some((7, 100)), (2, _, 1) => Some((6, 45)), _ => None };
                        let whole = match mode { 1 => what / 3, 2 => what / 2, _ => what };
                        for _ in 0..whole {
                            b.put(r.below(m), w);
                        }
                        if let Some((w, m)) = short {
                            b.put(r.below(m), w);
                        }
                    }
                    while b.len() < cap {
                        b.put(r.below(2), 1);
                    }
                    b.0.truncate(cap);
                    let dat: Vec<u8> = b.0.chunks(8).map(|c| c.iter().fold(0u8, |a, x| a << 1 | x)).collect();
                    cases.push((format!("cut-v{v}-{left}-{mode}-{what}"), v, e, dat, None));
                }
            }
        }
    }
    // well-formed segments with the stream ending 0..16 bits after them
    let n = ctx.amount(1500, 10_000);
    for k in 0..n {
        let mut r = Rng::for_case(seed, "tail", k as u64);
        let (v, e) = *r.pick(&[(1usize, 2usize), (1, 3), (1, 0), (1, 1), (2, 3), (2, 1)]);
        let cap = enc::data_capacity(v, e) * 8;
        let mut b = enc::Bits::default();
        for _ in 0..r.range(1, 5) {
            let mode = *r.pick(&[1usize, 2, 4, 8, 7]);
            let len = r.range(0, 9);
            let s = Seg::random(&mut r, mode, len);
            if b.len() + s.bits(v) <= cap {
                s.put(v, &mut b);
            }
        }
        // last: a segment that claims more than there is
        let room = cap - b.len();
        let mode = *r.pick(&[1usize, 2, 4, 8]);
        if room > 4 + enc::count_bits(mode, v) && r.chance(2, 3) {
            let mx = enc::max_chars(mode, v, room);
            b.put(mode, 4);
            let cnt = (mx + r.below(4)).saturating_sub(1).min((1 << enc::count_bits(mode, v)) - 1);
            b.put(cnt, enc::count_bits(mode, v));
            match mode {
                1 => {
                    while b.len() + 10 <= cap {
                        b.put(r.below(1000), 10)
                    }
                }
                2 => {
                    while b.len() + 11 <= cap {
                        b.put(r.below(2025), 11)
                    }
                }
                _ => {}
            }
        } else if room >= 4 {
            b.put(*r.pick(&[0usize, 0, 3, 5, 6, 9, 10, 11, 12, 13, 14, 15]), 4);
        }
        while b.len() < cap {
            b.put(r.below(2) * r.below(2), 1);
        }
        let dat: Vec<u8> = b.0.chunks(8).map(|c| c.iter().fold(0u8, |a, x| a << 1 | x)).collect();
        cases.push((format!("tail-{k}"), v, e, dat, None));
    }
    // arbitrary streams
    let n = ctx.amount(1500, 20_000);
    for k in 0..n {
        let mut r = Rng::for_case(seed, "noise", k as u64);
        let (v, e) = *r.pick(&[(1usize, 2usize), (1, 3), (1, 0), (1, 1), (2, 1), (10, 2)]);
        let mut dat: Vec<u8> = (0..enc::data_capacity(v, e)).map(|_| r.byte()).collect();
        // start in a known mode with a plausible count
        dat[0] = (*r.pick(&[1u8, 2, 4, 8, 7, 0, 3]) << 4) | (if v < 10 { r.below(4) as u8 } else { 0 });
        if v >= 10 {
            dat[1] = r.below(4) as u8;
        }
        cases.push((format!("noise-{k}"), v, e, dat, None));
    }
    record(ctx, cases.len(), |k| {
        let (name, v, e, dat, want) = &cases[k];
        let m = k % 8;
        let s = enc::symbol(*v, *e, m, dat);
        let mut c = Case::new(format!("seg-{name}-v{v}e{e}m{m}"), s.grid);
        c.want = want.clone();
        c.note = name.clone();
        c.string = k % 4 == 0;
        c
    });
}

/// Writers that fail, and the String interface.
pub fn writers(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let mut cases: Vec<Case> = vec![];
    let base = |r: &mut Rng, kind: usize| -> (Grid, Option<(Vec<u8>, &'static str)>) {
        let (v, e) = *r.pick(&[(1usize, 1usize), (1, 0), (2, 1), (3, 2), (4, 2)]);
        let m = r.below(8);
        if kind == 0 {
            // several kinds of segments, short
            let mut segs = vec![];
            let mut room = enc::data_capacity(v, e) * 8;
            for _ in 0..4 {
                let mode = *r.pick(&[1usize, 2, 4, 8]);
                let len = r.range(1, 6);
                let s = Seg::random(r, mode, len);
                if s.bits(v) <= room {
                    room -= s.bits(v);
                    segs.push(s);
                }
            }
            (enc::symbol(v, e, m, &enc::fill(v, e, &segs)).grid, Some((enc::payload(&segs), "Ok")))
        } else {
            // a stream that goes wrong after some output
            let mut b = enc::Bits::default();
            Seg::random(r, 2, 3).put(v, &mut b);
            match r.below(3) {
                0 => b.put(*r.pick(&[3usize, 5, 9, 15]), 4),
                1 => {
                    b.put(4, 4);
                    b.put(200, 8);
                }
                _ => {
                    b.put(1, 4);
                    b.put(300, 10);
                }
            }
            let cap = enc::data_capacity(v, e) * 8;
            while b.len() < cap {
                b.put(r.below(512), 10);
            }
            b.0.truncate(cap);
            let dat: Vec<u8> = b.0.chunks(8).map(|c| c.iter().fold(0u8, |a, x| a << 1 | x)).collect();
            (enc::symbol(v, e, m, &dat).grid, None)
        }
    };
    let faults = [Act::Short(1), Act::Short(2), Act::Zero, Act::Interrupted, Act::Error];
    // every single fault at every call, and every pair within the first few
    let nb = ctx.amount(6, 40);
    for i in 0..nb {
        let mut r = Rng::for_case(seed, "writer", i as u64);
        let (g, want) = base(&mut r, (i % 3 == 2) as usize);
        for p in 0..18usize {
            for (fi, f) in faults.iter().enumerate() {
                let mut acts = vec![Act::All; p];
                acts.push(*f);
                let mut c = Case::new(format!("fault-{i}-{p}-{fi}"), g.clone());
                c.acts = Some(acts);
                c.want = want.clone();
                c.string = false;
                c.note = format!("{f:?} at write {p}");
                cases.push(c);
                if p < 5 {
                    for (fj, f2) in faults.iter().enumerate() {
                        for gap in 0..2 {
                            let mut acts = vec![Act::All; p];
                            acts.push(*f);
                            acts.extend(vec![Act::All; gap]);
                            acts.push(*f2);
                            let mut c = Case::new(format!("fault2-{i}-{p}-{fi}-{gap}-{fj}"), g.clone());
                            c.acts = Some(acts);
                            c.string = false;
                            c.note = format!("{f:?} at write {p}, {f2:?} {gap} later");
                            cases.push(c);
                        }
                    }
                }
            }
        }
    }
    let n = ctx.amount(800, 8000);
    for k in 0..n {
        let mut r = Rng::for_case(seed, "writer-random", k as u64);
        let kind = r.below(2);
        let (mut g, mut want) = base(&mut r, kind);
        if r.chance(1, 6) {
            // uncorrectable: nothing may be written
            let (y, x) = (g.n - 1, g.n - 1);
            for dy in 0..g.n / 2 {
                for dx in 0..g.n / 2 {
                    if r.chance(1, 2) {
                        g.flip(y - dy, x - dx);
                    }
                }
            }
            want = None;
        }
        let len = r.range(1, 14);
        let acts: Vec<Act> = (0..len)
            .map(|_| match r.below(10) {
                0..=4 => Act::All,
                5 => Act::Short(1),
                6 => Act::Short(2),
                7 => Act::Interrupted,
                8 => Act::Interrupted,
                _ => *r.pick(&[Act::Zero, Act::Error]),
            })
            .collect();
        let mut c = Case::new(format!("script-{k}"), g);
        c.note = format!("{acts:?}");
        c.acts = Some(acts);
        c.want = want;
        c.string = false;
        cases.push(c);
    }
    // UTF-8: lead bytes with continuation bytes at every boundary
    let conts: [u8; 10] = [0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff];
    let mut texts: Vec<Vec<u8>> = vec![];
    for lead in [0xc0u8, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff, 0x80, 0xbf] {
        for c1 in conts {
            texts.push(vec![b'a', lead, c1]);
            texts.push(vec![lead, c1, 0x80]);
            texts.push(vec![lead, c1, 0xbf, 0x80, b'z']);
        }
        texts.push(vec![lead]);
    }
    for t in ["", "plain", "Grüße", "世界", "🦀🦀", "a\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}"] {
        texts.push(t.as_bytes().to_vec());
        let mut cut = t.as_bytes().to_vec();
        cut.pop();
        texts.push(cut);
    }
    for (k, t) in texts.iter().enumerate() {
        let v = if t.len() <= 13 { 1 } else { 3 };
        let segs = vec![Seg::Byte(t.clone())];
        let s = enc::symbol(v, 1, k % 8, &enc::fill(v, 1, &segs));
        let mut c = Case::new(format!("utf8-{k}"), s.grid);
        c.want = Some((t.clone(), "Ok"));
        c.note = format!("bytes {t:02x?}");
        cases.push(c);
    }
    record(ctx, cases.len(), |k| {
        let c = &cases[k];
        Case { id: c.id.clone(), g: c.g.clone(), acts: c.acts.clone(), want: c.want.clone(), string: c.string, note: c.note.clone() }
    });
}

/// Mirrored symbols.
pub fn mirror(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let n = ctx.amount(900, 6000);
    record(ctx, n, |k| {
        let mut r = Rng::for_case(seed, "mirror", k as u64);
        let (mut v, e, m) = (r.range(1, 6), k / 8 % 4, k % 8);
        if k < 160 {
            v = k / 4 + 1;
        }
        let e = if k < 160 { k % 4 } else { e };
        match k % 5 {
            // as much damage as can be corrected
            0 | 1 => {
                let (g, want, note) = damaged_symbol(&mut r, v, e, m, true);
                let mut c = Case::new(format!("mirror-damage-{k}-v{v}e{e}m{m}"), g.transposed());
                c.want = Some((want, "Ok"));
                c.note = note;
                c
            }
            2 => {
                let segs = some_segs(&mut r, v, e);
                let g = enc::symbol(v, e, m, &enc::fill(v, e, &segs)).grid;
                let mut c = Case::new(format!("mirror-clean-{k}-v{v}e{e}m{m}"), g.transposed());
                c.want = Some((enc::payload(&segs), "Ok"));
                c.note = "clean, transposed".into();
                c
            }
            // too much damage: the error is the one of the straight reading
            3 => {
                let segs = some_segs(&mut r, v, e);
                let mut g = enc::symbol(v, e, m, &enc::fill(v, e, &segs)).grid;
                let n = g.n;
                for _ in 0..n * n / 3 {
                    let (y, x) = (r.range(9, n - 1), r.range(9, n - 1));
                    g.flip(y, x);
                }
                if r.chance(1, 3) {
                    damage_format(&mut r, &mut g, 0, 7);
                }
                if r.chance(1, 3) {
                    damage_format(&mut r, &mut g, 1, 7);
                }
                let g = if r.chance(2, 3) { g.transposed() } else { g };
                let mut c = Case::new(format!("mirror-broken-{k}-v{v}e{e}m{m}"), g);
                c.note = "transposed and broken".into();
                c
            }
            // straight reading corrects, but the stream is malformed
            _ => {
                let mut b = enc::Bits::default();
                Seg::random(&mut r, 4, 2).put(v, &mut b);
                b.put(*r.pick(&[3usize, 5, 6, 9]), 4);
                let dat = enc::fill_bits(v, e, b, false);
                let mut g = enc::symbol(v, e, m, &dat).grid;
                if r.chance(1, 2) {
                    g = g.transposed();
                }
                let mut c = Case::new(format!("mirror-malformed-{k}-v{v}e{e}m{m}"), g);
                c.note = "malformed stream, straight or transposed".into();
                c
            }
        }
    });
    // bulk: transposed symbols whose message is known
    let n = ctx.amount(8000, 200_000);
    let bad = {
        let cx = &*ctx;
        par(n, |w, k| {
            let mut r = Rng::for_case(seed, "mirror-bulk", k as u64);
            let v = r.range(1, 10);
            let (e, m) = (r.below(4), r.below(8));
            let full = r.chance(1, 2);
            let (g, want, note) = damaged_symbol(&mut r, v, e, m, full);
            let g = g.transposed();
            let id = format!("mirrorbulk-{k}-v{v}e{e}m{m}");
            cx.begin(w, || format!("{{\"case\":{}}}", json::string(&id)));
            let d = run::decode_to(&g, Script::plain());
            cx.end(w);
            let h = hash(&g.bits);
            if d.res != "Ok" || d.out() != want || d.meta.v != v as i64 || d.oob {
                let mut c = Case::new(id, g);
                c.note = note;
                (h, Some(c))
            } else {
                (h, None)
            }
        })
    };
    for (h, c) in bad {
        ctx.eval(h);
        ctx.count("bulk", 1);
        if let Some(c) = c {
            ctx.count("bulk_disagreements", 1);
            let d = exec(&c);
            if let Some(b) = &d.bad {
                ctx.violation(b, d.line.clone());
            }
            if ctx.counts["bulk_disagreements"] <= 300 {
                ctx.emit(&d.line, cost(d.n));
            }
        }
    }
}

fn random_grid(r: &mut Rng, n: usize) -> Grid {
    let mut g = Grid::new(n);
    let dens = *r.pick(&[0usize, 5, 30, 50, 70, 100]);
    for b in g.bits.iter_mut() {
        *b = r.chance(dens, 100) as u8;
    }
    g
}

/// Any grid of any size.
pub fn anygrid(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let n = ctx.amount(1500, 12_000);
    record(ctx, n, |k| {
        let mut r = Rng::for_case(seed, "any", k as u64);
        let n = match k {
            0..=199 => k,
            _ => match r.below(6) {
                0 => r.range(0, 20),
                1 => r.range(178, 260),
                2 => enc::size_of(r.range(1, 40)),
                _ => enc::size_of(*r.pick(&[1, 1, 2, 2, 3, 7])),
            },
        };
        let mut g = random_grid(&mut r, n);
        if n >= 21 && r.chance(2, 3) {
            let w = enc::format_word(r.below(4), r.below(8));
            enc::set_format(&mut g, 0, w);
            if r.chance(1, 2) {
                enc::set_format(&mut g, 1, w);
            }
        }
        // random modules in the right format, close to a symbol
        if n >= 21 && n % 4 == 1 && n <= 177 && r.chance(1, 3) {
            let v = (n - 17) / 4;
            let (e, m) = (r.below(4), r.below(8));
            let dat: Vec<u8> = (0..enc::data_capacity(v, e)).map(|_| r.byte()).collect();
            g = enc::symbol(v, e, m, &dat).grid;
        }
        let mut c = Case::new(format!("any-{k}-n{n}"), g);
        c.note = "arbitrary modules".into();
        c
    });
    // the raw reader on the same kind of input, and absurd sizes
    struct Big(usize);
    impl rqrr::BitGrid for Big {
        fn size(&self) -> usize {
            self.0
        }
        fn bit(&self, y: usize, x: usize) -> bool {
            (y ^ x) & 1 == 1
        }
    }
    let n = ctx.amount(4000, 100_000);
    let res = {
        let cx = &*ctx;
        par(n, |w, k| {
            let mut r = Rng::for_case(seed, "any-raw", k as u64);
            let n = if k < 260 { k } else { r.range(0, 260) };
            let mut g = random_grid(&mut r, n);
            if n >= 21 {
                enc::set_format(&mut g, 0, enc::format_word(r.below(4), r.below(8)));
            }
            cx.begin(w, || format!("{{\"case\":\"any-raw-{k}\"}}"));
            let a = run::raw(&g);
            let d = run::decode_to(&g, Script::plain());
            cx.end(w);
            let mut bad = None;
            if let Some(p) = a.panic.or(d.panic) {
                bad = Some(format!("size {n}: panicked: {p}"));
            } else if a.oob || d.oob {
                bad = Some(format!("size {n}: grid read outside its bounds"));
            } else if !(21..=180).contains(&n) && (a.res != "InvalidVersion" || d.res != "InvalidVersion") {
                bad = Some(format!("size {n}: {} / {}", a.res, d.res));
            }
            (hash(&g.bits), bad.map(|b| (b, format!("{{\"n\":{n},\"g\":{}}}", json::nums(&g.bits)))))
        })
    };
    for (h, b) in res {
        ctx.eval(h);
        ctx.count("bulk", 1);
        if let Some((b, d)) = b {
            ctx.violation(&b, d);
        }
    }
    for n in [181usize, 255, 256, 257, 1 << 16, (1 << 32) + 21, usize::MAX / 2, usize::MAX] {
        ctx.count("evaluations", 1);
        let r = run::catch_unwind(|| {
            let g = rqrr::Grid::new(Big(n));
            (g.decode_to(std::io::sink()).err(), g.get_raw_data().err().map(|e| format!("{e:?}")))
        });
        match r {
            Ok((Some(rqrr::DeQRError::InvalidVersion), Some(s))) if s == "InvalidVersion" => {}
            Ok(o) => ctx.violation(&format!("size {n}: {o:?} instead of InvalidVersion"), "null".into()),
            Err(p) => ctx.violation(&format!("size {n}: panicked: {}", run::panic_text(p)), "null".into()),
        }
    }
}
