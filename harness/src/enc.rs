//! A QR encoder written from ISO/IEC 18004, used to make inputs.  It is not an
//! oracle: every verdict about an input comes from the TLA+ specification,
//! which recomputes what the grid means.

use crate::rng::Rng;

/// ECC levels as numbered in the format information: 0 = M, 1 = L, 2 = H, 3 = Q.
const EPB: [[u8; 40]; 4] = [
    [10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];
const NBL: [[u8; 40]; 4] = [
    [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
    [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
];

pub fn size_of(v: usize) -> usize {
    17 + 4 * v
}

pub fn align_centres(v: usize) -> Vec<usize> {
    if v == 1 {
        return vec![];
    }
    let n = v / 7 + 2;
    let step = if v == 32 { 26 } else { ((v * 4 + n * 2 + 1) / (2 * n - 2)) * 2 };
    (0..n)
        .map(|k| if k == 0 { 6 } else { v * 4 + 10 - (n - 1 - k) * step })
        .collect()
}

pub fn total_codewords(v: usize) -> usize {
    let n = if v == 1 { 0 } else { v / 7 + 2 };
    let mut r = (16 * v + 128) * v + 64;
    if v > 1 {
        r -= (25 * n - 10) * n - 55;
        if v >= 7 {
            r -= 36;
        }
    }
    r / 8
}

#[derive(Clone, Debug)]
pub struct Blocks {
    /// parity codewords per block
    pub npar: usize,
    /// data codewords of each block
    pub data: Vec<usize>,
}

pub fn blocks(v: usize, e: usize) -> Blocks {
    let npar = EPB[e][v - 1] as usize;
    let nb = NBL[e][v - 1] as usize;
    let total = total_codewords(v);
    let short = total / nb - npar;
    let longs = total % nb;
    Blocks { npar, data: (0..nb).map(|i| if i < nb - longs { short } else { short + 1 }).collect() }
}

pub fn data_capacity(v: usize, e: usize) -> usize {
    blocks(v, e).data.iter().sum()
}

pub fn gf_mul_slow(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        let c = a & 0x80 != 0;
        a <<= 1;
        if c {
            a ^= 0x1d;
        }
        b >>= 1;
    }
    r
}

fn gf_mul(a: u8, b: u8) -> u8 {
    static T: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| (0..65536usize).map(|k| gf_mul_slow((k >> 8) as u8, k as u8)).collect());
    t[(a as usize) << 8 | b as usize]
}

pub fn parity(data: &[u8], npar: usize) -> Vec<u8> {
    let mut g = vec![1u8];
    let mut root = 1u8;
    for _ in 0..npar {
        let mut ng = vec![0u8; g.len() + 1];
        for (i, &c) in g.iter().enumerate() {
            ng[i] ^= c;
            ng[i + 1] ^= gf_mul(c, root);
        }
        g = ng;
        root = gf_mul(root, 2);
    }
    let mut rem = vec![0u8; npar];
    for &d in data {
        let f = d ^ rem[0];
        rem.remove(0);
        rem.push(0);
        if f != 0 {
            for k in 0..npar {
                rem[k] ^= gf_mul(f, g[k + 1]);
            }
        }
    }
    rem
}

/// Codeword k of block b sits at this index of the interleaved sequence.
pub fn interleave_index(bl: &Blocks, b: usize, k: usize) -> usize {
    let nb = bl.data.len();
    let dw = bl.data[b];
    let short = bl.data[0];
    if k < dw {
        if k < short {
            k * nb + b
        } else {
            let nshort = bl.data.iter().filter(|&&d| d == short).count();
            short * nb + (b - nshort)
        }
    } else {
        bl.data.iter().sum::<usize>() + (k - dw) * nb + b
    }
}

pub fn interleave(v: usize, e: usize, data: &[u8]) -> Vec<u8> {
    let bl = blocks(v, e);
    let mut out = vec![0u8; total_codewords(v)];
    let mut off = 0;
    for b in 0..bl.data.len() {
        let d = &data[off..off + bl.data[b]];
        off += bl.data[b];
        let p = parity(d, bl.npar);
        for (k, &c) in d.iter().chain(p.iter()).enumerate() {
            out[interleave_index(&bl, b, k)] = c;
        }
    }
    out
}

pub fn is_function(v: usize, y: usize, x: usize) -> bool {
    let n = size_of(v);
    if (y <= 8 && x <= 8) || (y >= n - 8 && x <= 8) || (y <= 8 && x >= n - 8) {
        return true;
    }
    if y == 6 || x == 6 {
        return true;
    }
    if v >= 7 && ((y <= 5 && x >= n - 11) || (x <= 5 && y >= n - 11)) {
        return true;
    }
    let c = align_centres(v);
    let k = c.len();
    for i in 0..k {
        for j in 0..k {
            if (i == 0 && j == 0) || (i == 0 && j == k - 1) || (i == k - 1 && j == 0) {
                continue;
            }
            if y.abs_diff(c[i]) <= 2 && x.abs_diff(c[j]) <= 2 {
                return true;
            }
        }
    }
    false
}

/// Data modules (y, x) in reading order.
pub fn zigzag(v: usize) -> Vec<(usize, usize)> {
    let n = size_of(v);
    let mut cols: Vec<usize> = vec![];
    let mut x = n - 1;
    loop {
        if x == 6 {
            x -= 1;
        }
        cols.push(x);
        if x < 2 {
            break;
        }
        x -= 2;
    }
    let mut out = vec![];
    for (i, &c) in cols.iter().enumerate() {
        for r in 0..n {
            let y = if i % 2 == 0 { n - 1 - r } else { r };
            for xx in [c, c - 1] {
                if !is_function(v, y, xx) {
                    out.push((y, xx));
                }
            }
        }
    }
    out
}

pub fn mask_bit(m: usize, y: usize, x: usize) -> bool {
    match m {
        0 => (y + x) % 2 == 0,
        1 => y % 2 == 0,
        2 => x % 3 == 0,
        3 => (y + x) % 3 == 0,
        4 => (y / 2 + x / 3) % 2 == 0,
        5 => (y * x) % 2 + (y * x) % 3 == 0,
        6 => ((y * x) % 2 + (y * x) % 3) % 2 == 0,
        _ => ((y + x) % 2 + (y * x) % 3) % 2 == 0,
    }
}

pub fn format_word(e: usize, m: usize) -> u16 {
    let d = (e * 8 + m) as u32;
    let mut r = d << 10;
    for k in (10..15).rev() {
        if r >> k & 1 != 0 {
            r ^= 0x537 << (k - 10);
        }
    }
    ((d << 10 | r) ^ 0x5412) as u16
}

/// Modules of format copy 0 or 1, least significant bit first.
pub fn format_cells(n: usize, copy: usize) -> [(usize, usize); 15] {
    let mut out = [(0, 0); 15];
    const A: [(usize, usize); 15] = [
        (0, 8), (1, 8), (2, 8), (3, 8), (4, 8), (5, 8), (7, 8), (8, 8),
        (8, 7), (8, 5), (8, 4), (8, 3), (8, 2), (8, 1), (8, 0),
    ];
    for k in 0..15 {
        out[k] = if copy == 0 {
            A[k]
        } else if k < 8 {
            (8, n - 1 - k)
        } else {
            (n - 15 + k, 8)
        };
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Grid {
    pub n: usize,
    pub bits: Vec<u8>,
}

impl Grid {
    pub fn new(n: usize) -> Self {
        Grid { n, bits: vec![0; n * n] }
    }
    pub fn get(&self, y: usize, x: usize) -> bool {
        self.bits[y * self.n + x] != 0
    }
    pub fn set(&mut self, y: usize, x: usize, b: bool) {
        self.bits[y * self.n + x] = b as u8;
    }
    pub fn flip(&mut self, y: usize, x: usize) {
        self.bits[y * self.n + x] ^= 1;
    }
    pub fn transposed(&self) -> Grid {
        let mut g = Grid::new(self.n);
        for y in 0..self.n {
            for x in 0..self.n {
                g.bits[x * self.n + y] = self.bits[y * self.n + x];
            }
        }
        g
    }
    /// Rotated clockwise by a quarter turn.
    pub fn rotated(&self) -> Grid {
        let mut g = Grid::new(self.n);
        for y in 0..self.n {
            for x in 0..self.n {
                g.bits[x * self.n + (self.n - 1 - y)] = self.bits[y * self.n + x];
            }
        }
        g
    }
}

pub fn set_format(g: &mut Grid, copy: usize, w: u16) {
    let n = g.n;
    for (k, (y, x)) in format_cells(n, copy).into_iter().enumerate() {
        g.set(y, x, w >> k & 1 != 0);
    }
}

/// Function patterns only.
pub fn skeleton(v: usize) -> Grid {
    let n = size_of(v);
    let mut g = Grid::new(n);
    for (cy, cx) in [(3i64, 3i64), (3, n as i64 - 4), (n as i64 - 4, 3)] {
        for dy in -4i64..=4 {
            for dx in -4i64..=4 {
                let (y, x) = (cy + dy, cx + dx);
                if y < 0 || x < 0 || y >= n as i64 || x >= n as i64 {
                    continue;
                }
                let d = dy.abs().max(dx.abs());
                g.set(y as usize, x as usize, d == 3 || d <= 1);
            }
        }
    }
    for k in 8..n - 8 {
        g.set(6, k, k % 2 == 0);
        g.set(k, 6, k % 2 == 0);
    }
    let c = align_centres(v);
    let k = c.len();
    for i in 0..k {
        for j in 0..k {
            if (i == 0 && j == 0) || (i == 0 && j == k - 1) || (i == k - 1 && j == 0) {
                continue;
            }
            for dy in -2i64..=2 {
                for dx in -2i64..=2 {
                    let d = dy.abs().max(dx.abs());
                    g.set((c[i] as i64 + dy) as usize, (c[j] as i64 + dx) as usize, d != 1);
                }
            }
        }
    }
    if v >= 7 {
        let mut r = (v as u32) << 12;
        for k in (12..18).rev() {
            if r >> k & 1 != 0 {
                r ^= 0x1f25 << (k - 12);
            }
        }
        let w = (v as u32) << 12 | r;
        for i in 0..18 {
            let b = w >> i & 1 != 0;
            let (a, bb) = (i / 3, n - 11 + i % 3);
            g.set(a, bb, b);
            g.set(bb, a, b);
        }
    }
    g.set(n - 8, 8, true);
    g
}

#[derive(Clone)]
pub struct Symbol {
    pub v: usize,
    pub e: usize,
    pub m: usize,
    pub data: Vec<u8>,
    pub codewords: Vec<u8>,
    pub grid: Grid,
}

/// Build a symbol around given data codewords (must fill the capacity).
pub fn symbol(v: usize, e: usize, m: usize, data: &[u8]) -> Symbol {
    assert_eq!(data.len(), data_capacity(v, e));
    let codewords = interleave(v, e, data);
    let mut grid = skeleton(v);
    for (k, (y, x)) in zigzag(v).into_iter().enumerate() {
        let b = k / 8 < codewords.len() && codewords[k / 8] >> (7 - k % 8) & 1 != 0;
        grid.set(y, x, b ^ mask_bit(m, y, x));
    }
    let w = format_word(e, m);
    set_format(&mut grid, 0, w);
    set_format(&mut grid, 1, w);
    // the module below copy 2's vertical part is always dark
    grid.set(grid.n - 8, 8, true);
    Symbol { v, e, m, data: data.to_vec(), codewords, grid }
}

#[derive(Clone, Default)]
pub struct Bits(pub Vec<u8>);

impl Bits {
    pub fn put(&mut self, val: usize, n: usize) {
        for k in (0..n).rev() {
            self.0.push((val >> k & 1) as u8);
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

pub const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

#[derive(Clone, Debug)]
pub enum Seg {
    Num(Vec<u8>),
    Alnum(Vec<u8>),
    Byte(Vec<u8>),
    Kanji(Vec<u16>),
    Eci(u32),
}

pub fn count_bits(mode: usize, v: usize) -> usize {
    let b = if v <= 9 { 0 } else if v <= 26 { 1 } else { 2 };
    match mode {
        1 => [10, 12, 14][b],
        2 => [9, 11, 13][b],
        4 => [8, 16, 16][b],
        _ => [8, 10, 12][b],
    }
}

pub fn kanji_bytes(d: u16) -> [u8; 2] {
    let w = (d as u32 / 192) << 8 | (d as u32 % 192);
    let s = if w + 0x8140 <= 0x9ffc { w + 0x8140 } else { w + 0xc140 };
    [(s >> 8) as u8, s as u8]
}

impl Seg {
    pub fn mode(&self) -> usize {
        match self {
            Seg::Num(_) => 1,
            Seg::Alnum(_) => 2,
            Seg::Byte(_) => 4,
            Seg::Kanji(_) => 8,
            Seg::Eci(_) => 7,
        }
    }
    pub fn put(&self, v: usize, b: &mut Bits) {
        b.put(self.mode(), 4);
        match self {
            Seg::Num(d) => {
                b.put(d.len(), count_bits(1, v));
                for ch in d.chunks(3) {
                    let val = ch.iter().fold(0usize, |a, c| a * 10 + (c - b'0') as usize);
                    b.put(val, [0, 4, 7, 10][ch.len()]);
                }
            }
            Seg::Alnum(d) => {
                b.put(d.len(), count_bits(2, v));
                let ix = |c: u8| ALNUM.iter().position(|&a| a == c).unwrap();
                for ch in d.chunks(2) {
                    if ch.len() == 2 {
                        b.put(ix(ch[0]) * 45 + ix(ch[1]), 11);
                    } else {
                        b.put(ix(ch[0]), 6);
                    }
                }
            }
            Seg::Byte(d) => {
                b.put(d.len(), count_bits(4, v));
                for &c in d {
                    b.put(c as usize, 8);
                }
            }
            Seg::Kanji(d) => {
                b.put(d.len(), count_bits(8, v));
                for &c in d {
                    b.put(c as usize, 13);
                }
            }
            Seg::Eci(n) => {
                let n = *n as usize;
                if n < 128 {
                    b.put(n, 8);
                } else if n < 16384 {
                    b.put(0x8000 | n, 16);
                } else {
                    b.put(0xC0_0000 | n, 24);
                }
            }
        }
    }
    pub fn bits(&self, v: usize) -> usize {
        let mut b = Bits::default();
        self.put(v, &mut b);
        b.len()
    }
    pub fn payload(&self, out: &mut Vec<u8>) {
        match self {
            Seg::Num(d) | Seg::Alnum(d) | Seg::Byte(d) => out.extend(d),
            Seg::Kanji(d) => {
                for &k in d {
                    out.extend(kanji_bytes(k));
                }
            }
            Seg::Eci(_) => {}
        }
    }
    pub fn random(r: &mut Rng, mode: usize, len: usize) -> Seg {
        match mode {
            1 => Seg::Num((0..len).map(|_| b'0' + r.below(10) as u8).collect()),
            2 => Seg::Alnum((0..len).map(|_| *r.pick(&ALNUM[..])).collect()),
            4 => Seg::Byte((0..len).map(|_| r.byte()).collect()),
            8 => Seg::Kanji((0..len).map(|_| r.below(8192) as u16).collect()),
            _ => Seg::Eci(match r.below(3) {
                0 => r.below(128),
                1 => r.range(128, 16383),
                _ => r.range(16384, 999_999),
            } as u32),
        }
    }
}

/// Largest number of characters of `mode` whose segment fits in `room` bits.
pub fn max_chars(mode: usize, v: usize, room: usize) -> usize {
    let cb = count_bits(mode, v);
    if room < 4 + cb {
        return 0;
    }
    let r = room - 4 - cb;
    let n = match mode {
        1 => r / 10 * 3 + if r % 10 >= 7 { 2 } else if r % 10 >= 4 { 1 } else { 0 },
        2 => r / 11 * 2 + (r % 11 >= 6) as usize,
        4 => r / 8,
        _ => r / 13,
    };
    n.min((1 << cb) - 1)
}

/// Segments with terminator and pad codewords, as an encoder writes them.
pub fn fill(v: usize, e: usize, segs: &[Seg]) -> Vec<u8> {
    let mut b = Bits::default();
    for s in segs {
        s.put(v, &mut b);
    }
    fill_bits(v, e, b, true)
}

pub fn fill_bits(v: usize, e: usize, mut b: Bits, terminate: bool) -> Vec<u8> {
    let cap = data_capacity(v, e) * 8;
    assert!(b.len() <= cap, "stream too long");
    if terminate {
        for _ in 0..4.min(cap - b.len()) {
            b.put(0, 1);
        }
    }
    while b.len() % 8 != 0 && b.len() < cap {
        b.put(0, 1);
    }
    let mut pad = 0xEC;
    while b.len() < cap {
        b.put(pad, 8);
        pad ^= 0xEC ^ 0x11;
    }
    b.0.chunks(8).map(|c| c.iter().fold(0u8, |a, x| a << 1 | x)).collect()
}

/// Random segments filling about `frac`/100 of the capacity.
pub fn random_segs(r: &mut Rng, v: usize, e: usize, frac: usize, modes: &[usize]) -> Vec<Seg> {
    let cap = data_capacity(v, e) * 8;
    let mut room = cap * frac / 100;
    let mut segs = vec![];
    let nseg = r.range(1, 4);
    for k in 0..nseg {
        let mode = *r.pick(modes);
        if mode == 7 {
            let s = Seg::random(r, 7, 0);
            let l = s.bits(v);
            if l <= room {
                room -= l;
                segs.push(s);
            }
            continue;
        }
        let mx = max_chars(mode, v, room);
        if mx == 0 && room < 4 + count_bits(mode, v) {
            continue;
        }
        let len = if k + 1 == nseg { mx } else { r.range(0, mx) };
        let s = Seg::random(r, mode, len);
        room -= s.bits(v);
        segs.push(s);
    }
    segs
}

pub fn payload(segs: &[Seg]) -> Vec<u8> {
    let mut out = vec![];
    for s in segs {
        s.payload(&mut out);
    }
    out
}
