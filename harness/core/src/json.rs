//! A minimal JSON value: enough to exchange traces with TLC.
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::Null => write!(f, "null"),
            J::Bool(b) => write!(f, "{}", b),
            J::Int(i) => write!(f, "{}", i),
            J::Str(s) => write_str(f, s),
            J::Arr(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{}", x)?;
                }
                write!(f, "]")
            }
            J::Obj(m) => {
                write!(f, "{{")?;
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write_str(f, k)?;
                    write!(f, ":{}", x)?;
                }
                write!(f, "}}")
            }
        }
    }
}

fn write_str(f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result {
    write!(f, "\"")?;
    for c in s.chars() {
        match c {
            '"' => write!(f, "\\\"")?,
            '\\' => write!(f, "\\\\")?,
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(f, "\\u{:04x}", u)?;
                }
            }
            c => write!(f, "{}", c)?,
        }
    }
    write!(f, "\"")
}

impl From<bool> for J {
    fn from(b: bool) -> J {
        J::Bool(b)
    }
}
impl From<usize> for J {
    fn from(b: usize) -> J {
        J::Int(b as i64)
    }
}
impl From<&str> for J {
    fn from(b: &str) -> J {
        J::Str(b.to_owned())
    }
}
impl From<String> for J {
    fn from(b: String) -> J {
        J::Str(b)
    }
}
impl From<Vec<J>> for J {
    fn from(b: Vec<J>) -> J {
        J::Arr(b)
    }
}
impl From<char> for J {
    fn from(c: char) -> J {
        J::Int(c as i64)
    }
}

/// The characters of a text as code points.
pub fn codes(s: &str) -> J {
    J::Arr(s.chars().map(J::from).collect())
}

#[macro_export]
macro_rules! obj {
    ($($k:ident : $v:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m = std::collections::BTreeMap::new();
        $(m.insert(stringify!($k).trim_start_matches("r#").to_owned(), $crate::json::J::from($v));)*
        $crate::json::J::Obj(m)
    }};
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(m) = self {
            m.insert(k.to_owned(), v);
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("not an integer: {}", self),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("not a string: {}", self),
        }
    }
    pub fn boolean(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    /// Text from code points.
    pub fn text(&self) -> String {
        self.arr()
            .iter()
            .map(|c| char::from_u32(c.int() as u32).expect("code point"))
            .collect()
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = value(b, &mut p)?;
        ws(b, &mut p);
        if p == b.len() {
            Ok(v)
        } else {
            Err(format!("trailing text at {}", p))
        }
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    match b.get(*p) {
        None => Err("end".into()),
        Some(b'{') => {
            *p += 1;
            let mut m = BTreeMap::new();
            ws(b, p);
            if b.get(*p) == Some(&b'}') {
                *p += 1;
                return Ok(J::Obj(m));
            }
            loop {
                ws(b, p);
                let k = match value(b, p)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err("colon".into());
                }
                *p += 1;
                let v = value(b, p)?;
                m.insert(k, v);
                ws(b, p);
                match b.get(*p) {
                    Some(b',') => *p += 1,
                    Some(b'}') => {
                        *p += 1;
                        return Ok(J::Obj(m));
                    }
                    _ => return Err("object".into()),
                }
            }
        }
        Some(b'[') => {
            *p += 1;
            let mut v = Vec::new();
            ws(b, p);
            if b.get(*p) == Some(&b']') {
                *p += 1;
                return Ok(J::Arr(v));
            }
            loop {
                v.push(value(b, p)?);
                ws(b, p);
                match b.get(*p) {
                    Some(b',') => *p += 1,
                    Some(b']') => {
                        *p += 1;
                        return Ok(J::Arr(v));
                    }
                    _ => return Err("array".into()),
                }
            }
        }
        Some(b'"') => {
            *p += 1;
            let mut out: Vec<u16> = Vec::new();
            loop {
                let rest = std::str::from_utf8(&b[*p..]).map_err(|e| e.to_string())?;
                let c = rest.chars().next().ok_or("string")?;
                *p += c.len_utf8();
                match c {
                    '"' => return String::from_utf16(&out).map(J::Str).map_err(|e| e.to_string()),
                    '\\' => {
                        let e = b[*p];
                        *p += 1;
                        match e {
                            b'n' => out.push(10),
                            b't' => out.push(9),
                            b'r' => out.push(13),
                            b'b' => out.push(8),
                            b'f' => out.push(12),
                            b'u' => {
                                let h = std::str::from_utf8(&b[*p..*p + 4]).unwrap();
                                out.push(u16::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                                *p += 4;
                            }
                            e => out.push(e as u16),
                        }
                    }
                    c => {
                        let mut buf = [0; 2];
                        out.extend_from_slice(c.encode_utf16(&mut buf));
                    }
                }
            }
        }
        Some(b't') => lit(b, p, "true", J::Bool(true)),
        Some(b'f') => lit(b, p, "false", J::Bool(false)),
        Some(b'n') => lit(b, p, "null", J::Null),
        Some(_) => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            std::str::from_utf8(&b[st..*p])
                .unwrap()
                .parse()
                .map(J::Int)
                .map_err(|_| format!("number at {}", st))
        }
    }
}

fn lit(b: &[u8], p: &mut usize, w: &str, v: J) -> Result<J, String> {
    if b[*p..].starts_with(w.as_bytes()) {
        *p += w.len();
        Ok(v)
    } else {
        Err(format!("literal at {}", p))
    }
}
