//! A minimal JSON value and writer (the only output format of the harness).
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn obj() -> J {
        J::O(vec![])
    }
    pub fn set(mut self, k: &str, v: impl Into<J>) -> J {
        if let J::O(ref mut o) = self {
            o.retain(|(n, _)| n != k);
            o.push((k.to_string(), v.into()));
        }
        self
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => out.push_str(&i.to_string()),
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                out.push_str(&format!("\\u{:04x}", u));
                            }
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(a) => {
                out.push('[');
                for (n, x) in a.iter().enumerate() {
                    if n > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(o) => {
                out.push('{');
                for (n, (k, v)) in o.iter().enumerate() {
                    if n > 0 {
                        out.push(',');
                    }
                    J::S(k.clone()).write(out);
                    out.push(':');
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
}
impl From<bool> for J { fn from(x: bool) -> J { J::B(x) } }
impl From<i64> for J { fn from(x: i64) -> J { J::I(x) } }
impl From<i32> for J { fn from(x: i32) -> J { J::I(x as i64) } }
impl From<u32> for J { fn from(x: u32) -> J { J::I(x as i64) } }
impl From<usize> for J { fn from(x: usize) -> J { J::I(x as i64) } }
impl From<&str> for J { fn from(x: &str) -> J { J::S(x.to_string()) } }
impl From<String> for J { fn from(x: String) -> J { J::S(x) } }
impl From<&String> for J { fn from(x: &String) -> J { J::S(x.clone()) } }
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J { J::A(x.into_iter().map(|v| v.into()).collect()) }
}
impl<const N: usize> From<[u32; N]> for J {
    fn from(x: [u32; N]) -> J { J::A(x.iter().map(|v| J::I(*v as i64)).collect()) }
}
impl From<&crate::tens::IT> for J {
    fn from(t: &crate::tens::IT) -> J {
        J::obj().set("s", t.s).set("d", t.d.clone())
    }
}
impl From<crate::tens::IT> for J { fn from(t: crate::tens::IT) -> J { J::from(&t) } }

/// Reading: scripts generated from the specification.
impl J {
    pub fn parse(s: &str) -> J {
        let b: Vec<char> = s.chars().collect();
        let mut at = 0;
        value(&b, &mut at)
    }
    pub fn at(&self, k: &str) -> &J {
        match self { J::O(o) => &o.iter().find(|(n, _)| n == k).unwrap_or_else(|| panic!("no field {}", k)).1, _ => panic!("no object") }
    }
    pub fn has(&self, k: &str) -> bool { matches!(self, J::O(o) if o.iter().any(|(n, _)| n == k)) }
    pub fn int(&self) -> i64 { match self { J::I(i) => *i, _ => panic!("no integer") } }
    pub fn str(&self) -> &str { match self { J::S(s) => s, _ => panic!("no string") } }
    pub fn list(&self) -> &[J] { match self { J::A(a) => a, _ => panic!("no list") } }
    pub fn dims(&self) -> [u32; 3] { let l = self.list(); [l[0].int() as u32, l[1].int() as u32, l[2].int() as u32] }
    pub fn tensor(&self) -> crate::tens::IT {
        crate::tens::IT { s: self.at("s").dims(), d: self.at("d").list().iter().map(|v| v.int()).collect() }
    }
}
fn space(b: &[char], at: &mut usize) { while *at < b.len() && b[*at].is_whitespace() { *at += 1; } }
fn value(b: &[char], at: &mut usize) -> J {
    space(b, at);
    match b[*at] {
        '{' => {
            *at += 1;
            let mut o = vec![];
            loop {
                space(b, at);
                match b[*at] {
                    '}' => { *at += 1; return J::O(o); }
                    ',' => *at += 1,
                    _ => {
                        let k = match value(b, at) { J::S(s) => s, _ => panic!("key") };
                        space(b, at);
                        assert_eq!(b[*at], ':');
                        *at += 1;
                        o.push((k, value(b, at)));
                    }
                }
            }
        }
        '[' => {
            *at += 1;
            let mut a = vec![];
            loop {
                space(b, at);
                match b[*at] {
                    ']' => { *at += 1; return J::A(a); }
                    ',' => *at += 1,
                    _ => a.push(value(b, at)),
                }
            }
        }
        '"' => {
            *at += 1;
            let mut s = String::new();
            while b[*at] != '"' { s.push(b[*at]); *at += 1; }
            *at += 1;
            J::S(s)
        }
        't' => { *at += 4; J::B(true) }
        'f' => { *at += 5; J::B(false) }
        _ => {
            let from = *at;
            while *at < b.len() && (b[*at] == '-' || b[*at].is_ascii_digit()) { *at += 1; }
            J::I(b[from..*at].iter().collect::<String>().parse().unwrap())
        }
    }
}
