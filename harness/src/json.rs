//! Just enough JSON to talk with the driver (no dependencies wanted)
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map_or(&J::Null, |(_, j)| j),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("json: string expected, got {:?}", self),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => panic!("json: number expected, got {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => panic!("json: array expected, got {:?}", self),
        }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => write!(o, "{}", n).unwrap(),
            J::Str(s) => wstr(s, o),
            J::Arr(a) => {
                o.push('[');
                for (i, j) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    j.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, j)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(k, o);
                    o.push(':');
                    j.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn n(x: usize) -> J {
    J::Num(x as i64)
}
pub fn codes(x: &str) -> J {
    J::Arr(x.chars().map(|c| J::Num(c as i64)).collect())
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, j)| (k.to_string(), j)).collect())
}

pub fn parse(t: &str) -> J {
    let b = t.as_bytes();
    let mut i = 0;
    let j = value(b, &mut i);
    ws(b, &mut i);
    assert!(i == b.len(), "json: trailing text");
    j
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1;
    }
}
fn value(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'n' => {
            *i += 4;
            J::Null
        }
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        b'"' => J::Str(string(b, i)),
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::Arr(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                }
                v.push(value(b, i));
            }
        }
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::Obj(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    ws(b, i);
                }
                let k = string(b, i);
                ws(b, i);
                assert!(b[*i] == b':');
                *i += 1;
                let j = value(b, i);
                v.push((k, j));
            }
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::Num(std::str::from_utf8(&b[st..*i]).unwrap().parse().expect("json: number"))
        }
    }
}
fn string(b: &[u8], i: &mut usize) -> String {
    assert!(b[*i] == b'"');
    *i += 1;
    let mut o: Vec<u8> = vec![];
    let hex4 = |b: &[u8], i: usize| u32::from_str_radix(std::str::from_utf8(&b[i..i + 4]).unwrap(), 16).unwrap();
    loop {
        match b[*i] {
            b'"' => {
                *i += 1;
                return String::from_utf8(o).unwrap();
            }
            b'\\' => {
                *i += 1;
                let c = b[*i];
                *i += 1;
                match c {
                    b'n' => o.push(b'\n'),
                    b'r' => o.push(b'\r'),
                    b't' => o.push(b'\t'),
                    b'b' => o.push(8),
                    b'f' => o.push(12),
                    b'u' => {
                        let mut u = hex4(b, *i);
                        *i += 4;
                        if u >= 0xd800 && u < 0xdc00 {
                            let lo = hex4(b, *i + 2);
                            *i += 6;
                            u = 0x10000 + ((u - 0xd800) << 10) + (lo - 0xdc00);
                        }
                        let ch = std::char::from_u32(u).unwrap();
                        let mut buf = [0; 4];
                        o.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                    }
                    c => o.push(c),
                }
            }
            c => {
                o.push(c);
                *i += 1;
            }
        }
    }
}
