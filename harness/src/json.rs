//! A small strict JSON reader of the harness's own: what a text says, and whether
//! it leans on something JSON leaves open.
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Big(f64),
    Float(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub struct Reader<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
    pub odd: bool,
}

/// The one value a text consists of, and whether it is odd
pub fn read(bytes: &[u8]) -> Option<(J, bool)> {
    std::str::from_utf8(bytes).ok()?;
    let mut r = Reader { b: bytes, i: 0, depth: 0, odd: false };
    r.ws();
    let v = r.value()?;
    r.ws();
    (r.i == bytes.len()).then_some((v, r.odd))
}

impl Reader<'_> {
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && b" \t\r\n".contains(&self.b[self.i]) {
            self.i += 1;
        }
    }
    fn word(&mut self, w: &str, v: J) -> Option<J> {
        self.b[self.i..].starts_with(w.as_bytes()).then(|| {
            self.i += w.len();
            v
        })
    }
    fn value(&mut self) -> Option<J> {
        self.depth += 1;
        if self.depth > 100 {
            self.odd = true;
        }
        if self.depth > 2000 {
            return None;
        }
        let v = match self.peek() {
            b'n' => self.word("null", J::Null),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut out = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        out.push(self.value()?);
                        self.ws();
                        let c = self.peek();
                        self.i += 1;
                        match c {
                            b',' => continue,
                            b']' => break,
                            _ => return None,
                        }
                    }
                }
                Some(J::Arr(out))
            }
            b'{' => {
                self.i += 1;
                let mut out: Vec<(String, J)> = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        if self.peek() != b':' {
                            return None;
                        }
                        self.i += 1;
                        self.ws();
                        let v = self.value()?;
                        if k == "/" || out.iter().any(|x| x.0 == k) {
                            self.odd = true;
                        }
                        out.push((k, v));
                        self.ws();
                        let c = self.peek();
                        self.i += 1;
                        match c {
                            b',' => continue,
                            b'}' => break,
                            _ => return None,
                        }
                    }
                }
                Some(J::Obj(out))
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => None,
        };
        self.depth -= 1;
        v
    }
    fn digits(&mut self) -> usize {
        let s = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        self.i - s
    }
    fn number(&mut self) -> Option<J> {
        let start = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        if self.peek() == b'0' {
            self.i += 1;
        } else if self.digits() == 0 {
            return None;
        }
        let mut whole = true;
        if self.peek() == b'.' {
            whole = false;
            self.i += 1;
            if self.digits() == 0 {
                return None;
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            whole = false;
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            if self.digits() == 0 {
                return None;
            }
        }
        let t = std::str::from_utf8(&self.b[start..self.i]).ok()?;
        let f: f64 = t.parse().ok()?;
        if !f.is_finite() || (f == 0.0 && (t.starts_with('-') || t.bytes().any(|c| (b'1'..=b'9').contains(&c)))) {
            self.odd = true;
        }
        if whole {
            match t.parse::<i128>() {
                Ok(i) if i >= i64::MIN as i128 && i <= u64::MAX as i128 => Some(J::Int(i)),
                _ => Some(J::Big(f)),
            }
        } else {
            Some(J::Float(f))
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let t = self.b.get(self.i..self.i + 4)?;
        if !t.iter().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(t).ok()?, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        if self.peek() != b'"' {
            return None;
        }
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                0..=0x1f => return None,
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xd800..0xdc00).contains(&a) && self.b[self.i..].starts_with(b"\\u") {
                                let save = self.i;
                                self.i += 2;
                                let b = self.hex4()?;
                                if (0xdc00..0xe000).contains(&b) {
                                    char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00))?
                                } else {
                                    self.odd = true;
                                    self.i = save;
                                    '\u{fffd}'
                                }
                            } else if let Some(c) = char::from_u32(a) {
                                c
                            } else {
                                self.odd = true;
                                '\u{fffd}'
                            }
                        }
                        _ => return None,
                    };
                    out.extend(ch.to_string().as_bytes());
                }
                c => out.push(c),
            }
        }
    }
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(f) => f.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn kind(v: Option<&J>) -> &'static str {
        match v {
            None => "missing",
            Some(J::Null) => "null",
            Some(J::Bool(_)) => "bool",
            Some(J::Int(i)) if *i >= 0 => "uint",
            Some(J::Int(_)) => "neg",
            Some(J::Big(_)) => "big",
            Some(J::Float(_)) => "float",
            Some(J::Str(_)) => "str",
            Some(J::Arr(a)) if a.iter().all(|x| matches!(x, J::Str(_))) => "strs",
            Some(J::Arr(_)) => "mixed",
            Some(J::Obj(_)) => "obj",
        }
    }
    /// as CapMap describes a value in place of a capability map
    pub fn node(&self, depth: usize) -> Value {
        match self {
            J::Obj(_) if depth > 3 => serde_json::json!({"k":"cav","c":"c"}),
            J::Obj(f) => serde_json::json!({"k":"obj","f":f.iter().map(|(k, v)| serde_json::json!([k, v.node(depth + 1)])).collect::<Vec<_>>()}),
            J::Arr(a) if depth <= 3 => serde_json::json!({"k":"arr","e":a.iter().map(|v| v.node(depth + 1)).collect::<Vec<_>>()}),
            _ => serde_json::json!({"k":"other"}),
        }
    }
    /// one text per value
    pub fn canon(&self) -> String {
        match self {
            J::Null => "null".into(),
            J::Bool(b) => b.to_string(),
            J::Int(i) => i.to_string(),
            J::Big(f) | J::Float(f) => format!("{f:e}"),
            J::Str(s) => format!("{s:?}"),
            J::Arr(a) => format!("[{}]", a.iter().map(|x| x.canon()).collect::<Vec<_>>().join(",")),
            J::Obj(f) => {
                let mut f: Vec<_> = f.iter().map(|(k, v)| format!("{k:?}:{}", v.canon())).collect();
                f.sort();
                format!("{{{}}}", f.join(","))
            }
        }
    }
}

impl From<&Value> for J {
    fn from(v: &Value) -> J {
        match v {
            Value::Null => J::Null,
            Value::Bool(b) => J::Bool(*b),
            Value::Number(n) => match (n.as_u64(), n.as_i64()) {
                (Some(u), _) => J::Int(u as i128),
                (_, Some(i)) => J::Int(i as i128),
                _ => J::Float(n.as_f64().unwrap_or(f64::NAN)),
            },
            Value::String(s) => J::Str(s.clone()),
            Value::Array(a) => J::Arr(a.iter().map(J::from).collect()),
            Value::Object(m) => J::Obj(m.iter().map(|(k, v)| (k.clone(), J::from(v))).collect()),
        }
    }
}
