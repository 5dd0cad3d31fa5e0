//! Symbols drawn by the specification (spec/MC_Symbols.tla), replayed into
//! the real decoder: result, bytes and metadata must be what it drew.

use crate::ctx::{hash, Ctx};
use crate::enc::Grid;
use crate::{json, run};

fn field<'a>(line: &'a str, key: &str) -> &'a str {
    let k = format!("\"{key}\":");
    let at = line.find(&k).unwrap_or_else(|| panic!("no {key}")) + k.len();
    let rest = &line[at..];
    if let Some(r) = rest.strip_prefix('[') {
        &r[..r.find(']').unwrap()]
    } else {
        rest[..rest.find([',', '}']).unwrap()].trim()
    }
}
fn list(line: &str, key: &str) -> Vec<u8> {
    field(line, key).split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect()
}
fn int(line: &str, key: &str) -> i64 {
    field(line, key).parse().unwrap()
}

pub fn symbols(ctx: &mut Ctx) {
    let files = std::env::var("RQV_IN").expect("RQV_IN");
    for f in files.split(',') {
        let text = std::fs::read_to_string(f).expect("behaviours");
        for line in text.lines().filter(|l| !l.is_empty()) {
            let n = int(line, "n") as usize;
            let bits = list(line, "g");
            assert_eq!(bits.len(), n * n);
            let mut g = Grid::new(n);
            for (p, &b) in bits.iter().enumerate() {
                g.set(p / n, p % n, b == 1);
            }
            let want = list(line, "want");
            let meta = (int(line, "v"), int(line, "e"), int(line, "m"));
            ctx.begin(0, || line.to_string());
            let r = run::decode_to(&g, run::Script::plain());
            let s = run::decode_string(&g);
            ctx.end(0);
            ctx.eval(hash(&bits));
            let ok = r.res == "Ok" && !r.oob && r.out() == want && (r.meta.v, r.meta.e, r.meta.m) == meta;
            let text_ok = if std::str::from_utf8(&want).is_ok() {
                s.res == "Ok" && s.text == want && (s.meta.v, s.meta.e, s.meta.m) == meta
            } else {
                s.res == "EncodingError"
            };
            if !ok || !text_ok {
                let d = format!(
                    "{{\"behaviour\":{line},\"res\":{},\"out\":{},\"meta\":[{},{},{}],\"string\":{}}}",
                    json::string(&r.res), json::nums(&r.out()), r.meta.v, r.meta.e, r.meta.m, json::string(&s.res)
                );
                ctx.violation("the real decoder disagrees with a behaviour of the specification", d);
            }
        }
    }
}
