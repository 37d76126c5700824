//! Minimal JSON value, writer and parser (the sandbox check must not need any dependency).
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(v: impl Into<String>) -> J {
        J::Str(v.into())
    }
    pub fn u(v: u64) -> J {
        J::Int(v as i128)
    }
    pub fn obj(items: Vec<(&str, J)>) -> J {
        J::Obj(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn map(m: &BTreeMap<String, u64>) -> J {
        J::Obj(m.iter().map(|(k, v)| (k.clone(), J::u(*v))).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<u64> {
        match self {
            J::Int(i) => Some(*i as u64),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn write(&self, out: &mut String, indent: usize) {
        let pad = |out: &mut String, n: usize| {
            out.push('\n');
            for _ in 0..n {
                out.push(' ');
            }
        };
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => write!(out, "{i}").unwrap(),
            J::Num(n) => write!(out, "{n:.3}").unwrap(),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 0x20 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                out.push('[');
                let simple = v.iter().all(|x| matches!(x, J::Int(_)));
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !simple {
                        pad(out, indent + 1);
                    }
                    x.write(out, indent + 1);
                }
                if !simple && !v.is_empty() {
                    pad(out, indent);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    pad(out, indent + 1);
                    J::Str(k.clone()).write(out, 0);
                    out.push_str(": ");
                    x.write(out, indent + 1);
                }
                if !v.is_empty() {
                    pad(out, indent);
                }
                out.push('}');
            }
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    pub fn parse(s: &str) -> Option<J> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        ws(b, &mut p);
        if p == b.len() { Some(v) } else { None }
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\t' | b'\r') {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if b.get(*p)? == &b'}' {
                    *p += 1;
                    return Some(J::Obj(v));
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let J::Str(k) = val(b, p)? else { return None };
                ws(b, p);
                if b.get(*p)? != &b':' {
                    return None;
                }
                *p += 1;
                v.push((k, val(b, p)?));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if b.get(*p)? == &b']' {
                    *p += 1;
                    return Some(J::Arr(v));
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                v.push(val(b, p)?);
            }
        }
        b'"' => {
            *p += 1;
            let mut out: Vec<u8> = Vec::new();
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    b'"' => return Some(J::Str(String::from_utf8_lossy(&out).into_owned())),
                    b'\\' => {
                        let e = *b.get(*p)?;
                        *p += 1;
                        match e {
                            b'n' => out.push(b'\n'),
                            b't' => out.push(b'\t'),
                            b'r' => out.push(b'\r'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                *p += 4;
                                let mut t = [0; 4];
                                out.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            }
                            e => out.push(e),
                        }
                    }
                    c => out.push(c),
                }
            }
        }
        b't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).ok()?;
            if let Ok(i) = t.parse::<i128>() {
                Some(J::Int(i))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}
