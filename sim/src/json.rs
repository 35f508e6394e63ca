//! A minimal JSON value, writer and parser (integers only; no floats but for output).

use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    U(u64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn obj(xs: Vec<(&str, J)>) -> J {
        J::O(xs.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn map(xs: &BTreeMap<String, u64>) -> J {
        J::O(xs.iter().map(|(k, v)| (k.clone(), J::U(*v))).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(xs) => xs.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::U(x) => *x,
            J::F(x) => *x as u64,
            _ => 0,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(x) => x,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(x) => x,
            _ => &[],
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, 0, false);
        o
    }
    pub fn pretty(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, 0, true);
        o.push('\n');
        o
    }
    fn depth(&self) -> usize {
        match self {
            J::A(x) => 1 + x.iter().map(|y| y.depth()).max().unwrap_or(0),
            J::O(x) => 1 + x.iter().map(|y| y.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    fn write(&self, o: &mut String, ind: usize, pretty: bool) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::U(x) => write!(o, "{}", x).unwrap(),
            J::F(x) => write!(o, "{:.3}", x).unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(xs) => {
                let nl = pretty && self.depth() > 2;
                o.push('[');
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if nl {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    x.write(o, ind + 1, pretty);
                }
                if nl {
                    o.push('\n');
                    o.push_str(&" ".repeat(ind));
                }
                o.push(']');
            }
            J::O(xs) => {
                let nl = pretty && (ind == 0 || self.depth() > 2);
                o.push('{');
                for (i, (k, x)) in xs.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if nl {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    J::S(k.clone()).write(o, 0, false);
                    o.push(':');
                    x.write(o, ind + 1, pretty);
                }
                if nl {
                    o.push('\n');
                    o.push_str(&" ".repeat(ind));
                }
                o.push('}');
            }
        }
    }

    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut i = 0;
        let v = parse(b, &mut i)?;
        Ok(v)
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn parse(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    let bad = |i: usize| Err(format!("bad JSON at byte {}", i));
    if *i >= b.len() {
        return bad(*i);
    }
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut xs = vec![];
            loop {
                ws(b, i);
                if *i < b.len() && b[*i] == b'}' {
                    *i += 1;
                    return Ok(J::O(xs));
                }
                if *i < b.len() && b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match parse(b, i)? {
                    J::S(s) => s,
                    _ => return bad(*i),
                };
                ws(b, i);
                if *i >= b.len() || b[*i] != b':' {
                    return bad(*i);
                }
                *i += 1;
                xs.push((k, parse(b, i)?));
            }
        }
        b'[' => {
            *i += 1;
            let mut xs = vec![];
            loop {
                ws(b, i);
                if *i < b.len() && b[*i] == b']' {
                    *i += 1;
                    return Ok(J::A(xs));
                }
                if *i < b.len() && b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                xs.push(parse(b, i)?);
            }
        }
        b'"' => {
            *i += 1;
            let mut o = vec![];
            while *i < b.len() && b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                    match b.get(*i) {
                        Some(b'n') => o.push(b'\n'),
                        Some(b'u') => {
                            let h = std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap_or("0");
                            let c = u32::from_str_radix(h, 16).unwrap_or(63);
                            let c = char::from_u32(c).unwrap_or('?');
                            o.extend_from_slice(c.to_string().as_bytes());
                            *i += 4;
                        }
                        Some(c) => o.push(*c),
                        None => return bad(*i),
                    }
                } else {
                    o.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            Ok(J::S(String::from_utf8_lossy(&o).into_owned()))
        }
        b't' => {
            *i += 4;
            Ok(J::Bool(true))
        }
        b'f' => {
            *i += 5;
            Ok(J::Bool(false))
        }
        b'n' => {
            *i += 4;
            Ok(J::Null)
        }
        c if c == b'-' || c.is_ascii_digit() => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i] == b'.' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).unwrap();
            if let Ok(u) = t.parse::<u64>() {
                Ok(J::U(u))
            } else {
                t.parse::<f64>().map(J::F).map_err(|e| e.to_string())
            }
        }
        _ => bad(*i),
    }
}
