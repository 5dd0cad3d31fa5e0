//! Calls into the code under test, with everything observable recorded.

use crate::enc::Grid;
use std::cell::Cell;
use std::io::{self, Write};
use std::panic::{self, AssertUnwindSafe, UnwindSafe};

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}

/// Panics of the code under test are recorded, others are reported as usual.
pub fn install_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |i| {
        if !GUARDED.with(|g| g.get()) {
            default(i);
        }
    }));
}

pub fn catch_unwind<R>(f: impl FnOnce() -> R + UnwindSafe) -> Result<R, Box<dyn std::any::Any + Send>> {
    GUARDED.with(|g| g.set(true));
    let r = panic::catch_unwind(f);
    GUARDED.with(|g| g.set(false));
    r
}

/// The caller's grid; notices reads outside its bounds.
pub struct Probe<'a> {
    pub g: &'a Grid,
    pub oob: &'a Cell<bool>,
}

impl rqrr::BitGrid for Probe<'_> {
    fn size(&self) -> usize {
        self.g.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        if y >= self.g.n || x >= self.g.n {
            self.oob.set(true);
            return false;
        }
        self.g.get(y, x)
    }
}

/// What the writer does with one call.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// accept everything
    All,
    /// accept at most this many bytes
    Short(usize),
    /// Ok(0)
    Zero,
    /// ErrorKind::Interrupted
    Interrupted,
    /// another error
    Error,
}

#[derive(Clone, Debug)]
pub struct WriteEv {
    pub offered: Vec<u8>,
    /// >= 1 accepted, 0 = Ok(0), -1 interrupted, -2 error
    pub resp: i32,
}

/// A writer following a script (then accepting everything), recording calls.
pub struct Script {
    pub acts: Vec<Act>,
    pub pos: usize,
    pub log: Vec<WriteEv>,
    /// merge consecutive fully accepted writes into one event
    pub merge: bool,
}

impl Script {
    pub fn plain() -> Self {
        Script { acts: vec![], pos: 0, log: vec![], merge: true }
    }
    pub fn new(acts: Vec<Act>) -> Self {
        Script { acts, pos: 0, log: vec![], merge: false }
    }
}

impl Write for Script {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let act = self.acts.get(self.pos).copied().unwrap_or(Act::All);
        self.pos += 1;
        if self.merge && act == Act::All {
            if let Some(l) = self.log.last_mut() {
                l.offered.extend_from_slice(buf);
                l.resp += buf.len() as i32;
            } else {
                self.log.push(WriteEv { offered: buf.to_vec(), resp: buf.len() as i32 });
            }
            return Ok(buf.len());
        }
        let (resp, ret) = match act {
            Act::All => (buf.len() as i32, Ok(buf.len())),
            Act::Short(k) => {
                let k = k.clamp(1, buf.len());
                (k as i32, Ok(k))
            }
            Act::Zero => (0, Ok(0)),
            Act::Interrupted => (-1, Err(io::Error::new(io::ErrorKind::Interrupted, "scripted"))),
            Act::Error => (-2, Err(io::Error::new(io::ErrorKind::BrokenPipe, "scripted"))),
        };
        self.log.push(WriteEv { offered: buf.to_vec(), resp });
        ret
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub v: i64,
    pub e: i64,
    pub m: i64,
}

fn meta(m: &rqrr::MetaData) -> Meta {
    Meta { v: m.version.0 as i64, e: m.ecc_level as i64, m: m.mask as i64 }
}

const NOMETA: Meta = Meta { v: -1, e: -1, m: -1 };

pub fn err_name(e: &rqrr::DeQRError) -> String {
    format!("{e:?}")
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

#[derive(Clone, Debug)]
pub struct DecodeRec {
    pub res: String,
    pub meta: Meta,
    pub writes: Vec<WriteEv>,
    pub oob: bool,
    pub panic: Option<String>,
}

impl DecodeRec {
    /// Bytes the writer accepted.
    pub fn out(&self) -> Vec<u8> {
        let mut o = vec![];
        for w in &self.writes {
            if w.resp > 0 {
                o.extend(&w.offered[..w.resp as usize]);
            }
        }
        o
    }
}

/// Grid::decode_to
pub fn decode_to(g: &Grid, w: Script) -> DecodeRec {
    let oob = Cell::new(false);
    let mut w = w;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let grid = rqrr::Grid::new(Probe { g, oob: &oob });
        grid.decode_to(&mut w)
    }));
    let (res, m, panic) = match r {
        Ok(Ok(m)) => ("Ok".to_string(), meta(&m), None),
        Ok(Err(e)) => (err_name(&e), NOMETA, None),
        Err(p) => ("Panic".to_string(), NOMETA, Some(panic_text(p))),
    };
    DecodeRec { res, meta: m, writes: w.log, oob: oob.get(), panic }
}

#[derive(Clone, Debug)]
pub struct StringRec {
    pub res: String,
    pub meta: Meta,
    pub text: Vec<u8>,
    pub panic: Option<String>,
}

/// Grid::decode
pub fn decode_string(g: &Grid) -> StringRec {
    let oob = Cell::new(false);
    let r = catch_unwind(AssertUnwindSafe(|| rqrr::Grid::new(Probe { g, oob: &oob }).decode()));
    match r {
        Ok(Ok((m, s))) => StringRec { res: "Ok".into(), meta: meta(&m), text: s.into_bytes(), panic: None },
        Ok(Err(e)) => StringRec { res: err_name(&e), meta: NOMETA, text: vec![], panic: None },
        Err(p) => StringRec { res: "Panic".into(), meta: NOMETA, text: vec![], panic: Some(panic_text(p)) },
    }
}

#[derive(Clone, Debug)]
pub struct RawRec {
    pub res: String,
    pub meta: Meta,
    pub len: usize,
    pub data: Vec<u8>,
    /// non-zero bits at or after `len`
    pub dirty: bool,
    pub oob: bool,
    pub panic: Option<String>,
}

/// Grid::get_raw_data
pub fn raw(g: &Grid) -> RawRec {
    let oob = Cell::new(false);
    let mut r = raw_of(Probe { g, oob: &oob });
    r.oob = oob.get();
    r
}

pub fn raw_of<G: rqrr::BitGrid>(g: G) -> RawRec {
    let r = catch_unwind(AssertUnwindSafe(|| rqrr::Grid::new(g).get_raw_data()));
    let blank = |res: String, panic| RawRec { res, meta: NOMETA, len: 0, data: vec![], dirty: false, oob: false, panic };
    match r {
        Ok(Ok((m, d))) => {
            let nb = d.len.div_ceil(8);
            let mut dirty = d.data[nb.min(d.data.len())..].iter().any(|&b| b != 0);
            if d.len % 8 != 0 && d.data[nb - 1] << (d.len % 8) != 0 {
                dirty = true;
            }
            RawRec { res: "Ok".into(), meta: meta(&m), len: d.len, data: d.data[..nb].to_vec(), dirty, oob: false, panic: None }
        }
        Ok(Err(e)) => blank(err_name(&e), None),
        Err(p) => blank("Panic".into(), Some(panic_text(p))),
    }
}
