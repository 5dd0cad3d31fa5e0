//! Just enough JSON output for the trace files.
pub fn nums<T: Into<i64> + Copy>(xs: &[T]) -> String {
    let mut s = String::with_capacity(xs.len() * 3 + 2);
    s.push('[');
    for (i, &x) in xs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let v: i64 = x.into();
        if (0..10).contains(&v) {
            s.push((b'0' + v as u8) as char);
        } else {
            s.push_str(&v.to_string());
        }
    }
    s.push(']');
    s
}

pub fn list(xs: &[String]) -> String {
    format!("[{}]", xs.join(","))
}

pub fn string(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
