//! Stand-in for the `regex` crate used in the symbolic build: the pattern is parsed by the real
//! regex-syntax, compiled to a small NFA, and matched without branching on the text (is_match) or
//! by a leftmost-first bounded backtracker (everything that needs positions).
//! tools/stubtest compares it with the real crate.
use regex_syntax::hir::{Class, Hir, HirKind, Look};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    Syntax(String),
    CompiledTooBig(usize),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Syntax(e) => f.write_str(e),
            Error::CompiledTooBig(n) => write!(f, "compiled regex exceeds {} bytes", n),
        }
    }
}
impl std::error::Error for Error {}

struct Set {
    ascii: [u8; 256],
    rest: Vec<(u32, u32)>,
}
enum Inst {
    Char(u32, u32),
    Split(u32, u32),
    Save(u32, u32),
    Look(u8, u32),
    Jmp(u32),
    Match,
}
const HOLE: u32 = u32::MAX;
const MATCH: u32 = u32::MAX;
struct Edge {
    /// the character state reached, or MATCH
    to: u32,
    looks: Vec<u8>,
}
struct Prog {
    insts: Vec<Inst>,
    sets: Vec<Set>,
    start: u32,
    ncap: usize,
    names: BTreeMap<String, usize>,
    cap_names: Vec<Option<String>>,
    closures: Vec<Vec<Edge>>,
    looks: Vec<u8>,
    anchored: bool,
    /// the ASCII characters a match can start with; None when it can be empty
    first: Option<Box<[u8; 256]>>,
}

struct Comp {
    insts: Vec<Inst>,
    sets: Vec<Set>,
    ncap: usize,
    names: BTreeMap<String, usize>,
    cap_names: Vec<Option<String>>,
}
fn look_id(l: Look) -> u8 {
    match l {
        Look::Start => 0,
        Look::End => 1,
        Look::StartLF => 2,
        Look::EndLF => 3,
        Look::WordAscii => 4,
        Look::WordAsciiNegate => 5,
        Look::WordUnicode => 6,
        Look::WordUnicodeNegate => 7,
        Look::StartCRLF => 8,
        Look::EndCRLF => 9,
    }
}
impl Comp {
    fn push(&mut self, i: Inst) -> u32 {
        self.insts.push(i);
        self.insts.len() as u32 - 1
    }
    fn set(&mut self, ranges: &[(u32, u32)], next: u32) -> u32 {
        let mut s = Set { ascii: [0; 256], rest: vec![] };
        for &(a, b) in ranges {
            let mut c = a;
            while c <= b && c < 128 {
                s.ascii[c as usize] = 1;
                c += 1;
            }
            if b >= 128 {
                s.rest.push((a.max(128), b));
            }
        }
        self.sets.push(s);
        let i = self.sets.len() as u32 - 1;
        self.push(Inst::Char(i, next))
    }
    /// compile so that it continues at `next`; returns the entry
    fn go(&mut self, h: &Hir, next: u32) -> u32 {
        match h.kind() {
            HirKind::Empty => next,
            HirKind::Literal(l) => {
                let s = std::str::from_utf8(&l.0).expect("UTF-8 literal").to_string();
                let mut n = next;
                for c in s.chars().rev() {
                    n = self.set(&[(c as u32, c as u32)], n);
                }
                n
            }
            HirKind::Class(Class::Unicode(c)) => {
                let r: Vec<(u32, u32)> = c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect();
                self.set(&r, next)
            }
            HirKind::Class(Class::Bytes(c)) => {
                let r: Vec<(u32, u32)> = c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect();
                self.set(&r, next)
            }
            HirKind::Look(l) => {
                let l = look_id(*l);
                self.push(Inst::Look(l, next))
            }
            HirKind::Capture(c) => {
                let i = c.index as usize;
                if i >= self.ncap {
                    self.ncap = i + 1;
                    self.cap_names.resize(i + 1, None);
                }
                if let Some(n) = &c.name {
                    self.names.insert(n.to_string(), i);
                    self.cap_names[i] = Some(n.to_string());
                }
                let e = self.push(Inst::Save(2 * i as u32 + 1, next));
                let b = self.go(&c.sub, e);
                self.push(Inst::Save(2 * i as u32, b))
            }
            HirKind::Concat(v) => {
                let mut n = next;
                for x in v.iter().rev() {
                    n = self.go(x, n);
                }
                n
            }
            HirKind::Alternation(v) => {
                let e: Vec<u32> = v.iter().map(|x| self.go(x, next)).collect();
                let mut n = *e.last().unwrap();
                for x in e[..e.len() - 1].iter().rev() {
                    n = self.push(Inst::Split(*x, n));
                }
                n
            }
            HirKind::Repetition(r) => {
                let mut n = next;
                match r.max {
                    None => {
                        let s = self.push(Inst::Split(HOLE, HOLE));
                        let b = self.go(&r.sub, s);
                        self.insts[s as usize] = if r.greedy { Inst::Split(b, next) } else { Inst::Split(next, b) };
                        n = s;
                        if r.min > 0 {
                            // the last mandatory copy is the loop body itself
                            n = b;
                            for _ in 1..r.min {
                                n = self.go(&r.sub, n);
                            }
                            return n;
                        }
                        n
                    }
                    Some(m) => {
                        for _ in r.min..m {
                            let b = self.go(&r.sub, n);
                            n = if r.greedy { self.push(Inst::Split(b, next)) } else { self.push(Inst::Split(next, b)) };
                        }
                        for _ in 0..r.min {
                            n = self.go(&r.sub, n);
                        }
                        n
                    }
                }
            }
        }
    }
}

fn compile(h: &Hir) -> Prog {
    let mut c = Comp { insts: vec![], sets: vec![], ncap: 1, names: BTreeMap::new(), cap_names: vec![None] };
    let m = c.push(Inst::Match);
    let e = c.push(Inst::Save(1, m));
    let b = c.go(h, e);
    let start = c.push(Inst::Save(0, b));
    let mut p = Prog {
        insts: c.insts,
        sets: c.sets,
        start,
        ncap: c.ncap,
        names: c.names,
        cap_names: c.cap_names,
        closures: vec![],
        looks: vec![],
        anchored: false,
        first: None,
    };
    // where a continuation can start: after each character and at the start
    let mut need = vec![false; p.insts.len()];
    need[start as usize] = true;
    for i in &p.insts {
        match i {
            Inst::Char(_, n) => need[*n as usize] = true,
            Inst::Look(l, _) => {
                if !p.looks.contains(l) {
                    p.looks.push(*l)
                }
            }
            _ => {}
        }
    }
    for i in 0..p.insts.len() {
        let mut out = vec![];
        if need[i] {
            let mut seen: Vec<(u32, Vec<u8>)> = vec![];
            let mut st = vec![(i as u32, vec![])];
            while let Some((pc, l)) = st.pop() {
                if seen.iter().any(|s| s.0 == pc && s.1.iter().all(|x| l.contains(x))) {
                    continue;
                }
                seen.push((pc, l.clone()));
                match &p.insts[pc as usize] {
                    Inst::Char(..) => out.push(Edge { to: pc, looks: l }),
                    Inst::Match => out.push(Edge { to: MATCH, looks: l }),
                    Inst::Split(a, b) => {
                        st.push((*b, l.clone()));
                        st.push((*a, l));
                    }
                    Inst::Save(_, n) | Inst::Jmp(n) => st.push((*n, l)),
                    Inst::Look(k, n) => {
                        let mut l = l;
                        if !l.contains(k) {
                            l.push(*k);
                        }
                        st.push((*n, l))
                    }
                }
            }
        }
        p.closures.push(out);
    }
    p.anchored = p.closures[start as usize].iter().all(|e| e.looks.contains(&0));
    let mut first = Box::new([0u8; 256]);
    let mut nonempty = true;
    for e in &p.closures[start as usize] {
        if e.to == MATCH {
            nonempty = false;
        } else if let Inst::Char(set, _) = &p.insts[e.to as usize] {
            for (x, y) in first.iter_mut().zip(&p.sets[*set as usize].ascii) {
                *x |= *y;
            }
        }
    }
    if nonempty {
        p.first = Some(first);
    }
    p
}

static mut WORD_TABLE: [u8; 256] = {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 128 {
        let c = i as u8;
        if c.is_ascii_alphanumeric() || c == b'_' {
            t[i] = 1;
        }
        i += 1;
    }
    t
};
fn eq_table(c: u8) -> [u8; 256] {
    let mut t = [0; 256];
    t[c as usize] = 1;
    t
}
/// is the character a word character (0/1, possibly symbolic)
fn is_word(c: u32, unicode: bool) -> u8 {
    if c < 128 {
        #[allow(static_mut_refs)]
        unsafe {
            symrt::in_set(c as u8, &WORD_TABLE) as u8
        }
    } else if unicode {
        let c = char::from_u32(c).unwrap_or('\u{fffd}');
        (c.is_alphanumeric() || regex_syntax::is_word_character(c)) as u8
    } else {
        0
    }
}

impl Prog {
    fn look(&self, l: u8, prev: Option<u32>, next: Option<u32>) -> u8 {
        let is = |c: Option<u32>, x: u8| -> u8 {
            match c {
                Some(c) if c < 128 => symrt::in_set(c as u8, &eq_table(x)) as u8,
                _ => 0,
            }
        };
        let w = |u: bool| -> u8 { prev.map(|c| is_word(c, u)).unwrap_or(0) ^ next.map(|c| is_word(c, u)).unwrap_or(0) };
        match l {
            0 => prev.is_none() as u8,
            1 => next.is_none() as u8,
            2 => prev.is_none() as u8 | is(prev, b'\n'),
            3 => next.is_none() as u8 | is(next, b'\n'),
            4 => w(false),
            5 => w(false) ^ 1,
            6 => w(true),
            7 => w(true) ^ 1,
            8 => prev.is_none() as u8 | is(prev, b'\n') | (is(prev, b'\r') & (is(next, b'\n') ^ 1)),
            _ => next.is_none() as u8 | is(next, b'\r') | (is(next, b'\n') & (is(prev, b'\r') ^ 1)),
        }
    }
    fn accepts(&self, set: u32, c: u32) -> u8 {
        let s = &self.sets[set as usize];
        if c < 128 {
            symrt::in_set(c as u8, &s.ascii) as u8
        } else {
            let mut r = 0u8;
            for &(a, b) in &s.rest {
                r |= (c >= a) as u8 & (c <= b) as u8;
            }
            r
        }
    }
    fn is_match(&self, text: &str, from: usize) -> bool {
        let ch: Vec<u32> = decode(text);
        // `from` is a byte offset
        let first = text[..from].chars().count();
        let n = ch.len();
        let ns = self.insts.len();
        let mut cur = vec![0u8; ns];
        let mut nx = vec![0u8; ns];
        let mut live: Vec<u32> = Vec::with_capacity(32);
        let mut nlive: Vec<u32> = Vec::with_capacity(32);
        let mut matched = 0u8;
        let mut lv = [0u8; 10];
        for pos in first..=n {
            let prev = if pos > 0 { Some(ch[pos - 1]) } else { None };
            let next = if pos < n { Some(ch[pos]) } else { None };
            for &l in &self.looks {
                lv[l as usize] = self.look(l, prev, next);
            }
            // step over the previous character
            for s in &nlive {
                nx[*s as usize] = 0;
            }
            nlive.clear();
            if pos > first {
                let c = ch[pos - 1];
                for &s in &live {
                    let Inst::Char(set, to) = &self.insts[s as usize] else { unreachable!() };
                    let m = cur[s as usize] & self.accepts(*set, c);
                    if symrt::status(m != 0) == 0 {
                        continue;
                    }
                    self.follow(*to, m, &lv, &mut nx, &mut nlive, &mut matched);
                }
            }
            let can_start = match (&self.first, next) {
                (Some(_), None) => false,
                (Some(f), Some(c)) if c < 128 => symrt::status(symrt::in_set(c as u8, f)) != 0,
                _ => true,
            };
            if (pos == 0 || !self.anchored) && can_start {
                self.follow(self.start, 1, &lv, &mut nx, &mut nlive, &mut matched);
            }
            if symrt::status(matched != 0) == 1 {
                return true;
            }
            if nlive.is_empty() && self.anchored {
                break;
            }
            std::mem::swap(&mut cur, &mut nx);
            std::mem::swap(&mut live, &mut nlive);
        }
        matched != 0
    }
    #[inline]
    fn follow(&self, from: u32, m: u8, lv: &[u8; 10], nx: &mut [u8], live: &mut Vec<u32>, matched: &mut u8) {
        for e in &self.closures[from as usize] {
            let mut v = m;
            for l in &e.looks {
                v &= lv[*l as usize];
            }
            if symrt::status(v != 0) == 0 {
                continue;
            }
            if e.to == MATCH {
                *matched |= v;
            } else {
                if !live.contains(&e.to) {
                    live.push(e.to);
                }
                nx[e.to as usize] |= v;
            }
        }
    }

    /// leftmost-first match starting the search at byte offset `at`
    fn find(&self, text: &str, at: usize) -> Option<Vec<Option<usize>>> {
        let b = text.as_bytes();
        let mut p = at;
        let mut seen = vec![false; self.insts.len() * (b.len() + 1 - at)];
        loop {
            let can_start = match (&self.first, b.get(p)) {
                (Some(_), None) => false,
                (Some(f), Some(c)) if *c < 128 => symrt::status(symrt::in_set(*c, f)) != 0,
                _ => true,
            };
            if can_start && text.is_char_boundary(p) {
                let mut caps = vec![None; 2 * self.ncap];
                if self.back(text, at, p, &mut caps, &mut seen) {
                    return Some(caps);
                }
            }
            if p >= b.len() || self.anchored {
                return None;
            }
            p += 1;
        }
    }
    fn back(&self, text: &str, base: usize, p: usize, caps: &mut Vec<Option<usize>>, seen: &mut [bool]) -> bool {
        enum Job {
            Try(u32, usize),
            Restore(usize, Option<usize>),
        }
        let w = text.len() + 1 - base;
        let mut st = vec![Job::Try(self.start, p)];
        while let Some(j) = st.pop() {
            let (mut pc, mut p) = match j {
                Job::Restore(s, v) => {
                    caps[s] = v;
                    continue;
                }
                Job::Try(a, b) => (a, b),
            };
            loop {
                let k = pc as usize * w + (p - base);
                if seen[k] {
                    break;
                }
                seen[k] = true;
                match &self.insts[pc as usize] {
                    Inst::Match => return true,
                    Inst::Jmp(n) => pc = *n,
                    Inst::Split(a, b) => {
                        st.push(Job::Try(*b, p));
                        pc = *a;
                    }
                    Inst::Save(s, n) => {
                        st.push(Job::Restore(*s as usize, caps[*s as usize]));
                        caps[*s as usize] = Some(p);
                        pc = *n;
                    }
                    Inst::Look(l, n) => {
                        let prev = if p > 0 { text[..p].chars().next_back().map(|c| c as u32) } else { None };
                        let next = char_at(text, p).map(|c| c.0);
                        if self.look(*l, prev, next) == 0 {
                            break;
                        }
                        pc = *n;
                    }
                    Inst::Char(set, n) => {
                        let Some((c, len)) = char_at(text, p) else { break };
                        if self.accepts(*set, c) == 0 {
                            break;
                        }
                        p += len;
                        pc = *n;
                    }
                }
            }
        }
        false
    }
}
fn char_at(text: &str, p: usize) -> Option<(u32, usize)> {
    let b = text.as_bytes();
    if p >= b.len() {
        return None;
    }
    if b[p] < 128 {
        return Some((b[p] as u32, 1));
    }
    let c = text[p..].chars().next()?;
    Some((c as u32, c.len_utf8()))
}
fn decode(text: &str) -> Vec<u32> {
    let b = text.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut p = 0;
    while let Some((c, l)) = char_at(text, p) {
        v.push(c);
        p += l;
    }
    v
}

pub struct Regex {
    prog: std::sync::Arc<Prog>,
    src: String,
}
impl Clone for Regex {
    fn clone(&self) -> Regex {
        Regex { prog: self.prog.clone(), src: self.src.clone() }
    }
}
impl fmt::Debug for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.src)
    }
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.src)
    }
}
impl std::str::FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'t> {
    text: &'t str,
    start: usize,
    end: usize,
}
impl<'t> Match<'t> {
    pub fn start(&self) -> usize {
        self.start
    }
    pub fn end(&self) -> usize {
        self.end
    }
    pub fn is_empty(&self) -> bool {
        self.start == self.end
    }
    pub fn len(&self) -> usize {
        self.end - self.start
    }
    pub fn range(&self) -> std::ops::Range<usize> {
        self.start..self.end
    }
    pub fn as_str(&self) -> &'t str {
        &self.text[self.start..self.end]
    }
}
impl<'t> From<Match<'t>> for &'t str {
    fn from(m: Match<'t>) -> &'t str {
        m.as_str()
    }
}

pub struct Captures<'t> {
    text: &'t str,
    locs: Vec<Option<usize>>,
    prog: std::sync::Arc<Prog>,
}
impl<'t> Captures<'t> {
    pub fn get(&self, i: usize) -> Option<Match<'t>> {
        match (self.locs.get(2 * i), self.locs.get(2 * i + 1)) {
            (Some(Some(s)), Some(Some(e))) => Some(Match { text: self.text, start: *s, end: *e }),
            _ => None,
        }
    }
    pub fn name(&self, n: &str) -> Option<Match<'t>> {
        self.prog.names.get(n).and_then(|i| self.get(*i))
    }
    pub fn len(&self) -> usize {
        self.locs.len() / 2
    }
    pub fn iter<'c>(&'c self) -> impl Iterator<Item = Option<Match<'t>>> + 'c {
        (0..self.len()).map(move |i| self.get(i))
    }
    pub fn expand(&self, replacement: &str, dst: &mut String) {
        let b = replacement.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] != b'$' {
                let j = replacement[i..].find('$').map(|k| i + k).unwrap_or(b.len());
                dst.push_str(&replacement[i..j]);
                i = j;
                continue;
            }
            if b.get(i + 1) == Some(&b'$') {
                dst.push('$');
                i += 2;
                continue;
            }
            let (name, end) = if b.get(i + 1) == Some(&b'{') {
                match replacement[i + 2..].find('}') {
                    Some(k) => (&replacement[i + 2..i + 2 + k], i + 3 + k),
                    None => ("", i),
                }
            } else {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                (&replacement[i + 1..j], j)
            };
            if end == i || name.is_empty() {
                dst.push('$');
                i += 1;
                continue;
            }
            let m = match name.parse::<usize>() {
                Ok(n) => self.get(n),
                Err(_) => self.name(name),
            };
            if let Some(m) = m {
                dst.push_str(m.as_str());
            }
            i = end;
        }
    }
}
impl<'t> std::ops::Index<usize> for Captures<'t> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group at index '{}'", i))
    }
}
impl<'t, 'i> std::ops::Index<&'i str> for Captures<'t> {
    type Output = str;
    fn index(&self, n: &'i str) -> &str {
        self.name(n).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group named '{}'", n))
    }
}

pub trait Replacer {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String);
    fn no_expansion(&mut self) -> Option<Cow<'_, str>> {
        None
    }
}
impl<'a> Replacer for &'a str {
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        c.expand(self, d)
    }
}
impl<'a> Replacer for &'a String {
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        c.expand(self, d)
    }
}
impl Replacer for String {
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        c.expand(self, d)
    }
}
impl<'a> Replacer for Cow<'a, str> {
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        c.expand(self, d)
    }
}
impl<F, T> Replacer for F
where
    F: FnMut(&Captures<'_>) -> T,
    T: AsRef<str>,
{
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        d.push_str((*self)(c).as_ref())
    }
}
pub struct NoExpand<'t>(pub &'t str);
impl<'t> Replacer for NoExpand<'t> {
    fn replace_append(&mut self, _: &Captures<'_>, d: &mut String) {
        d.push_str(self.0)
    }
}

pub struct CaptureMatches<'r, 't> {
    re: &'r Regex,
    text: &'t str,
    at: usize,
    last: Option<usize>,
}
impl<'r, 't> Iterator for CaptureMatches<'r, 't> {
    type Item = Captures<'t>;
    fn next(&mut self) -> Option<Captures<'t>> {
        loop {
            if self.at > self.text.len() {
                return None;
            }
            let c = self.re.captures_at(self.text, self.at)?;
            let m = c.get(0).unwrap();
            if m.start == m.end {
                self.at = m.end + char_at(self.text, m.end).map(|c| c.1).unwrap_or(1);
                if Some(m.end) == self.last {
                    continue;
                }
            } else {
                self.at = m.end;
            }
            self.last = Some(m.end);
            return Some(c);
        }
    }
}
pub struct Matches<'r, 't>(CaptureMatches<'r, 't>);
impl<'r, 't> Iterator for Matches<'r, 't> {
    type Item = Match<'t>;
    fn next(&mut self) -> Option<Match<'t>> {
        self.0.next().map(|c| c.get(0).unwrap())
    }
}
pub struct Split<'r, 't> {
    finder: Matches<'r, 't>,
    last: usize,
}
impl<'r, 't> Iterator for Split<'r, 't> {
    type Item = &'t str;
    fn next(&mut self) -> Option<&'t str> {
        let text = self.finder.0.text;
        match self.finder.next() {
            None => {
                if self.last > text.len() {
                    None
                } else {
                    let s = &text[self.last..];
                    self.last = text.len() + 1;
                    Some(s)
                }
            }
            Some(m) => {
                let s = &text[self.last..m.start];
                self.last = m.end;
                Some(s)
            }
        }
    }
}
pub struct SplitN<'r, 't> {
    splits: Split<'r, 't>,
    n: usize,
}
impl<'r, 't> Iterator for SplitN<'r, 't> {
    type Item = &'t str;
    fn next(&mut self) -> Option<&'t str> {
        if self.n == 0 {
            return None;
        }
        self.n -= 1;
        if self.n > 0 {
            return self.splits.next();
        }
        let text = self.splits.finder.0.text;
        if self.splits.last > text.len() {
            None
        } else {
            Some(&text[self.splits.last..])
        }
    }
}

impl Regex {
    pub fn new(re: &str) -> Result<Regex, Error> {
        RegexBuilder::new(re).build()
    }
    pub fn is_match(&self, text: &str) -> bool {
        self.prog.is_match(text, 0)
    }
    pub fn is_match_at(&self, text: &str, at: usize) -> bool {
        self.prog.is_match(text, at)
    }
    pub fn find<'t>(&self, text: &'t str) -> Option<Match<'t>> {
        self.find_at(text, 0)
    }
    pub fn find_at<'t>(&self, text: &'t str, at: usize) -> Option<Match<'t>> {
        self.captures_at(text, at).and_then(|c| c.get(0))
    }
    pub fn shortest_match(&self, text: &str) -> Option<usize> {
        self.find(text).map(|m| m.end)
    }
    pub fn find_iter<'r, 't>(&'r self, text: &'t str) -> Matches<'r, 't> {
        Matches(self.captures_iter(text))
    }
    pub fn captures<'t>(&self, text: &'t str) -> Option<Captures<'t>> {
        self.captures_at(text, 0)
    }
    pub fn captures_at<'t>(&self, text: &'t str, at: usize) -> Option<Captures<'t>> {
        self.prog.find(text, at).map(|locs| Captures { text, locs, prog: self.prog.clone() })
    }
    pub fn captures_iter<'r, 't>(&'r self, text: &'t str) -> CaptureMatches<'r, 't> {
        CaptureMatches { re: self, text, at: 0, last: None }
    }
    pub fn split<'r, 't>(&'r self, text: &'t str) -> Split<'r, 't> {
        Split { finder: self.find_iter(text), last: 0 }
    }
    pub fn splitn<'r, 't>(&'r self, text: &'t str, n: usize) -> SplitN<'r, 't> {
        SplitN { splits: self.split(text), n }
    }
    pub fn replace<'t, R: Replacer>(&self, text: &'t str, rep: R) -> Cow<'t, str> {
        self.replacen(text, 1, rep)
    }
    pub fn replace_all<'t, R: Replacer>(&self, text: &'t str, rep: R) -> Cow<'t, str> {
        self.replacen(text, 0, rep)
    }
    pub fn replacen<'t, R: Replacer>(&self, text: &'t str, limit: usize, mut rep: R) -> Cow<'t, str> {
        let mut out = String::with_capacity(text.len());
        let (mut last, mut n) = (0, 0);
        for c in self.captures_iter(text) {
            let m = c.get(0).unwrap();
            out.push_str(&text[last..m.start]);
            rep.replace_append(&c, &mut out);
            last = m.end;
            n += 1;
            if n == limit {
                break;
            }
        }
        if n == 0 {
            return Cow::Borrowed(text);
        }
        out.push_str(&text[last..]);
        Cow::Owned(out)
    }
    pub fn as_str(&self) -> &str {
        &self.src
    }
    pub fn captures_len(&self) -> usize {
        self.prog.ncap
    }
    pub fn capture_names(&self) -> impl Iterator<Item = Option<&str>> {
        self.prog.cap_names.iter().map(|n| n.as_deref())
    }
}

pub struct RegexBuilder {
    src: String,
    p: regex_syntax::ParserBuilder,
}
impl RegexBuilder {
    pub fn new(s: &str) -> RegexBuilder {
        RegexBuilder { src: s.into(), p: regex_syntax::ParserBuilder::new() }
    }
    pub fn build(&self) -> Result<Regex, Error> {
        let h = self.p.build().parse(&self.src).map_err(|e| Error::Syntax(e.to_string()))?;
        Ok(Regex { prog: std::sync::Arc::new(compile(&h)), src: self.src.clone() })
    }
    pub fn case_insensitive(&mut self, y: bool) -> &mut Self {
        self.p.case_insensitive(y);
        self
    }
    pub fn multi_line(&mut self, y: bool) -> &mut Self {
        self.p.multi_line(y);
        self
    }
    pub fn dot_matches_new_line(&mut self, y: bool) -> &mut Self {
        self.p.dot_matches_new_line(y);
        self
    }
    pub fn swap_greed(&mut self, y: bool) -> &mut Self {
        self.p.swap_greed(y);
        self
    }
    pub fn ignore_whitespace(&mut self, y: bool) -> &mut Self {
        self.p.ignore_whitespace(y);
        self
    }
    pub fn unicode(&mut self, y: bool) -> &mut Self {
        self.p.unicode(y);
        self
    }
    pub fn size_limit(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn dfa_size_limit(&mut self, _: usize) -> &mut Self {
        self
    }
}

#[derive(Clone, Debug)]
pub struct RegexSet(Vec<Regex>);
pub struct SetMatches(Vec<bool>);
impl SetMatches {
    pub fn matched_any(&self) -> bool {
        self.0.iter().any(|x| *x)
    }
    pub fn matched(&self, i: usize) -> bool {
        self.0[i]
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        self.0.iter().enumerate().filter(|x| *x.1).map(|x| x.0)
    }
}
impl RegexSet {
    pub fn new<I, S>(e: I) -> Result<RegexSet, Error>
    where
        S: AsRef<str>,
        I: IntoIterator<Item = S>,
    {
        Ok(RegexSet(e.into_iter().map(|s| Regex::new(s.as_ref())).collect::<Result<_, _>>()?))
    }
    pub fn is_match(&self, t: &str) -> bool {
        self.0.iter().any(|r| r.is_match(t))
    }
    pub fn matches(&self, t: &str) -> SetMatches {
        SetMatches(self.0.iter().map(|r| r.is_match(t)).collect())
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

pub fn escape(s: &str) -> String {
    regex_syntax::escape(s)
}
