//! Minimal JSON: enough to write evidence and to write and read replay files.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<u64> for J {
    fn from(x: u64) -> J {
        J::Int(x as i128)
    }
}
impl From<usize> for J {
    fn from(x: usize) -> J {
        J::Int(x as i128)
    }
}
impl From<f64> for J {
    fn from(x: f64) -> J {
        J::Num(x)
    }
}

pub fn obj(items: Vec<(&str, J)>) -> J {
    J::Obj(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn u64(&self) -> Option<u64> {
        match self {
            J::Int(x) => Some(*x as u64),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(a) => Some(a),
            _ => None,
        }
    }

    pub fn show(&self) -> String {
        let mut s = String::new();
        self.put(&mut s, 0);
        s.push('\n');
        s
    }

    fn put(&self, out: &mut String, ind: usize) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(x) => out.push_str(&x.to_string()),
            J::Num(x) => {
                if x.is_finite() {
                    out.push_str(&format!("{:.3}", x))
                } else {
                    out.push_str("null")
                }
            }
            J::Str(s) => put_str(out, s),
            J::Arr(a) => {
                let flat = a.iter().all(|x| matches!(x, J::Int(_)));
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    }
                    x.put(out, ind + 1);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&" ".repeat(ind + 1));
                    put_str(out, k);
                    out.push_str(": ");
                    v.put(out, ind + 1);
                }
                out.push('}');
            }
        }
    }

    pub fn parse(s: &str) -> Option<J> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = parse_at(b, &mut p)?;
        ws(b, &mut p);
        if p == b.len() {
            Some(v)
        } else {
            None
        }
    }
}

fn put_str(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}

fn parse_at(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if *b.get(*p)? == b'}' {
                    *p += 1;
                    return Some(J::Obj(v));
                }
                if !v.is_empty() {
                    if b[*p] != b',' {
                        return None;
                    }
                    *p += 1;
                    ws(b, p);
                }
                let k = match parse_at(b, p)? {
                    J::Str(s) => s,
                    _ => return None,
                };
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                let x = parse_at(b, p)?;
                v.push((k, x));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if *b.get(*p)? == b']' {
                    *p += 1;
                    return Some(J::Arr(v));
                }
                if !v.is_empty() {
                    if b[*p] != b',' {
                        return None;
                    }
                    *p += 1;
                }
                v.push(parse_at(b, p)?);
            }
        }
        b'"' => {
            *p += 1;
            let mut out = Vec::new();
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    b'"' => return Some(J::Str(String::from_utf8_lossy(&out).into_owned())),
                    b'\\' => {
                        let e = *b.get(*p)?;
                        *p += 1;
                        match e {
                            b'n' => out.push(b'\n'),
                            b't' => out.push(b'\t'),
                            b'r' => out.push(b'\r'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
                                *p += 4;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                let mut buf = [0; 4];
                                out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                            }
                            c => out.push(c),
                        }
                    }
                    c => out.push(c),
                }
            }
        }
        b't' => lit(b, p, "true", J::Bool(true)),
        b'f' => lit(b, p, "false", J::Bool(false)),
        b'n' => lit(b, p, "null", J::Null),
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).ok()?;
            if let Ok(x) = t.parse::<i128>() {
                Some(J::Int(x))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}

fn lit(b: &[u8], p: &mut usize, s: &str, v: J) -> Option<J> {
    if b[*p..].starts_with(s.as_bytes()) {
        *p += s.len();
        Some(v)
    } else {
        None
    }
}
