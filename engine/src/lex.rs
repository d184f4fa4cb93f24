#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    Local(&'a str),
    Global(&'a str),
    Id(&'a str),
    Num(&'a str),
    Str(&'a str),  // raw, still escaped
    CStr(&'a str), // c"..."
    Meta(&'a str), // !name or !123 or bare !
    Attr(&'a str), // #12
    Label(&'a str), // name:
    P(u8),
    Nl,
    Eof,
}

#[derive(Clone)]
pub struct Lx<'a> {
    pub s: &'a [u8],
    pub p: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    pub fn new(s: &'a [u8]) -> Lx<'a> {
        Lx { s, p: 0 }
    }
    fn st(&self, a: usize, b: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let a = self.p + 1;
        let mut q = a;
        while self.s[q] != b'"' {
            q += 1;
        }
        self.p = q + 1;
        self.st(a, q)
    }
    fn name(&mut self) -> &'a str {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            return self.quoted();
        }
        let a = self.p;
        while self.p < self.s.len() && idch(self.s[self.p]) {
            self.p += 1;
        }
        self.st(a, self.p)
    }
    pub fn peek(&self) -> T<'a> {
        self.clone().next()
    }
    pub fn next(&mut self) -> T<'a> {
        loop {
            if self.p >= self.s.len() {
                return T::Eof;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b'\n' => {
                    self.p += 1;
                    return T::Nl;
                }
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                b'%' => {
                    self.p += 1;
                    return T::Local(self.name());
                }
                b'@' => {
                    self.p += 1;
                    return T::Global(self.name());
                }
                b'!' => {
                    self.p += 1;
                    return T::Meta(self.name());
                }
                b'#' => {
                    self.p += 1;
                    return T::Attr(self.name());
                }
                b'"' => {
                    let q = self.quoted();
                    if self.p < self.s.len() && self.s[self.p] == b':' {
                        self.p += 1;
                        return T::Label(q);
                    }
                    return T::Str(q);
                }
                b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                    self.p += 1;
                    return T::CStr(self.quoted());
                }
                _ if c.is_ascii_digit() || c == b'-' || c == b'+' => {
                    let a = self.p;
                    self.p += 1;
                    while self.p < self.s.len() && (idch(self.s[self.p]) || self.s[self.p] == b'+') {
                        self.p += 1;
                    }
                    if self.p < self.s.len() && self.s[self.p] == b':' {
                        let r = self.st(a, self.p);
                        self.p += 1;
                        return T::Label(r);
                    }
                    return T::Num(self.st(a, self.p));
                }
                _ if idch(c) => {
                    let a = self.p;
                    while self.p < self.s.len() && idch(self.s[self.p]) {
                        self.p += 1;
                    }
                    if self.p < self.s.len() && self.s[self.p] == b':' {
                        let r = self.st(a, self.p);
                        self.p += 1;
                        return T::Label(r);
                    }
                    return T::Id(self.st(a, self.p));
                }
                _ => {
                    self.p += 1;
                    return T::P(c);
                }
            }
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if let T::Id(x) = self.peek() {
            if x == s {
                self.next();
                return true;
            }
        }
        false
    }
    /// skip a balanced (...) group; current token is the opening paren
    pub fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    pub fn skip_line(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
