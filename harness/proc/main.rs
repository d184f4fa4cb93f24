//! C04..: anomalies found by the chunk processor against a reference over the whole stream.
use logreduce_model::process::{ChunkProcessor, ChunkTrainer};
use logreduce_model::{hashing_index, AnomalyContext, ChunkIndex};
use std::collections::HashSet;
use std::io::{Error, ErrorKind, Read};
use symrt::*;

/// A source whose text is produced piece by piece, so that choices are made as late as possible.
struct Lazy<F: FnMut() -> Option<Result<Vec<u8>, Error>>> {
    gen: F,
    cur: Vec<u8>,
    off: usize,
}
impl<F: FnMut() -> Option<Result<Vec<u8>, Error>>> Read for Lazy<F> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        while self.off == self.cur.len() {
            match (self.gen)() {
                None => return Ok(0),
                Some(Err(e)) => return Err(e),
                Some(Ok(v)) => {
                    self.cur = v;
                    self.off = 0;
                }
            }
        }
        let n = b.len().min(self.cur.len() - self.off);
        b[..n].copy_from_slice(&self.cur[self.off..self.off + n]);
        self.off += n;
        Ok(n)
    }
}

/// the n-th filler line: two words that occur nowhere else
fn filler(mut n: usize) -> Vec<u8> {
    let mut w = *b"kgggg";
    let mut i = 4;
    while n > 0 {
        w[i] = b'g' + (n % 12) as u8;
        n /= 12;
        i -= 1;
    }
    let mut l = w.to_vec();
    l.push(b' ');
    l.extend_from_slice(&w);
    l[6] = b't';
    l
}

#[derive(Clone)]
struct Line {
    raw: Vec<u8>,
    /// occurs in the baseline
    known: bool,
    /// the same line (up to volatile content) occurred before
    dup: bool,
}

/// What must be reported for a stream of lines: (index, before range, after range)
fn expected(lines: &[Line]) -> Vec<(usize, std::ops::Range<usize>, std::ops::Range<usize>)> {
    let anomalies: Vec<usize> = (0..lines.len()).filter(|i| !lines[*i].known && !lines[*i].dup).collect();
    let mut out = vec![];
    let mut cursor = 0;
    for (k, a) in anomalies.iter().enumerate() {
        let before = cursor.max(a.saturating_sub(3))..*a;
        let stop = anomalies.get(k + 1).copied().unwrap_or(lines.len());
        let after = a + 1..stop.min(a + 4);
        cursor = after.end;
        out.push((*a, before, after));
    }
    out
}

fn check_contexts(lines: &[Line], pos: &[usize], got: &[AnomalyContext]) {
    let want = expected(lines);
    check(got.len() >= want.len(), "an anomalous line is not reported");
    check(got.len() <= want.len(), "something that is not a new anomaly is reported");
    for (g, (i, before, after)) in got.iter().zip(want) {
        check(g.anomaly.pos == pos[i], "an anomaly carries the wrong line number");
        check(same(g.anomaly.line.as_bytes(), &lines[i].raw), "an anomaly carries the wrong text");
        check(g.anomaly.distance > 0.3 && g.anomaly.distance < 1.001, "the distance of an anomaly is out of range");
        check(g.before.len() == before.len(), "the context before an anomaly has the wrong extent");
        for (a, b) in g.before.iter().zip(&lines[before]) {
            check(same(a.as_bytes(), &b.raw), "the context before an anomaly is not what precedes it");
        }
        check(g.after.len() == after.len(), "the context after an anomaly has the wrong extent");
        for (a, b) in g.after.iter().zip(&lines[after]) {
            check(same(a.as_bytes(), &b.raw), "the context after an anomaly is not what follows it");
        }
    }
}

fn baseline(fillers: usize, known: &[&[u8]]) -> ChunkIndex {
    let mut index = hashing_index::new();
    let mut text = vec![];
    for i in 0..fillers {
        text.extend_from_slice(&filler(i));
        text.push(b'\n');
    }
    for k in known {
        text.extend_from_slice(k);
        text.push(b'\n');
    }
    if ChunkTrainer::single(&mut index, false, &text[..]).is_err() {
        fail("training failed");
    }
    index
}

const KNOWN: &[u8] = b"mnop qrst";
/// a line of the target: `mnop qrst` is in the baseline, the others differ from it in both words
fn symbolic_line(prev: &[Line]) -> Line {
    let mut raw = KNOWN.to_vec();
    let c = over(1, b"mghi");
    raw[0] = c[0];
    // the second word is new whenever the first one is
    raw[5] = c[0].wrapping_add(4);
    let known = raw[0] == b'm';
    let dup = prev.iter().any(|l| l.raw.len() == raw.len() && same(&l.raw, &raw));
    Line { raw, known, dup }
}

/// `fixed` filler lines (all in the baseline), up to `slack` more, then `n` symbolic ones
fn boundary(fixed: usize, slack: usize, n: usize, dups: bool, tail: usize) {
    let index = baseline(if dups { 4 } else { fixed + slack }, &[KNOWN]);
    let lines = std::cell::RefCell::new(Vec::<Line>::new());
    let mut stage = if fixed == 0 { 1 } else { 0 };
    let gen = || {
        let mut l = lines.borrow_mut();
        let mut out = vec![];
        let mut fill = |l: &mut Vec<Line>, i: usize| {
            let raw = filler(if dups { i % 4 } else { i });
            let dup = dups && i >= 4;
            l.push(Line { raw, known: true, dup });
        };
        match stage {
            0 => {
                for i in 0..fixed {
                    fill(&mut l, i);
                }
            }
            1 => {
                let extra = if slack > 0 { choose(slack + 1) } else { 0 };
                for i in 0..extra {
                    fill(&mut l, fixed + i);
                }
                for _ in 0..n {
                    let x = symbolic_line(&l[fixed..]);
                    l.push(x);
                }
                // repeated lines, whose texts alternate
                for i in 0..tail {
                    fill(&mut l, if i % 5 == 1 { 5 } else { 6 });
                }
            }
            _ => return None,
        }
        let from = if stage == 0 { 0 } else { fixed };
        stage += 1;
        for x in &l[from..] {
            out.extend_from_slice(&x.raw);
            out.push(b'\n');
        }
        if out.is_empty() {
            return None;
        }
        Some(Ok(out))
    };
    let mut skip = HashSet::new();
    let mut p = ChunkProcessor::new(Lazy { gen, cur: vec![], off: 0 }, &index, false, &mut skip);
    let mut got = vec![];
    while let Some(a) = p.next() {
        match a {
            Ok(a) => got.push(a),
            Err(_) => fail("an error is reported although every read succeeded"),
        }
        check(got.len() < 1000, "the processor does not stop");
    }
    let (lc, bc) = (p.line_count, p.byte_count);
    check(p.next().is_none(), "an anomaly appears after the end");
    drop(p);
    let lines = lines.into_inner();
    let pos: Vec<usize> = (1..=lines.len()).collect();
    check_contexts(&lines, &pos, &got);
    check(lc == lines.len(), "the line count is wrong");
    check(bc == lines.iter().map(|l| l.raw.len()).sum::<usize>(), "the byte count is wrong");
    if got.len() > 1 {
        cover("several anomalies");
    }
    if got.iter().any(|g| g.before.len() == 3) {
        cover("full context before");
    }
    if got.iter().any(|g| g.after.len() == 3) {
        cover("full context after");
    }
}


fn feed<'a>(pieces: Vec<Result<Vec<u8>, ErrorKind>>) -> impl Read + 'a {
    let mut it = pieces.into_iter();
    Lazy { gen: move || it.next().map(|r| r.map_err(Error::from)), cur: vec![], off: 0 }
}

fn collect<R: Read>(p: &mut ChunkProcessor<R>) -> Vec<AnomalyContext> {
    let mut got = vec![];
    while let Some(a) = p.next() {
        match a {
            Ok(a) => got.push(a),
            Err(_) => fail("an error is reported although every read succeeded"),
        }
        check(got.len() < 100, "the processor does not stop");
    }
    got
}

fn join(lines: &[Line]) -> Vec<u8> {
    let mut out = vec![];
    for l in lines {
        out.extend_from_slice(&l.raw);
        out.push(b'\n');
    }
    out
}

fn numbered(n: usize) -> Vec<usize> {
    (1..=n).collect()
}

/// lines, the marker of our own task (one byte of it symbolic), more lines
fn own_task(n: usize) {
    let index = baseline(0, &[KNOWN]);
    let at = choose(n);
    let mut marker = [&b"rstu TASK [log-classify : run]"[..], b"TASK [log-classify", b"TASK [log-classify_logs"][choose(3)].to_vec();
    let start = marker.iter().position(|c| *c == b'T').unwrap();
    let off = start + [0, 4, 5, 9, 17][choose(5)];
    let orig = marker[off];
    marker[off] = over(1, &[orig, b'q', b' '])[0];
    let is_marker = marker[off] == orig;
    let mut lines = vec![];
    for i in 0..n {
        if i == at {
            lines.push(Line { raw: marker.clone(), known: false, dup: false });
        } else {
            let x = symbolic_line(&lines);
            lines.push(x);
        }
    }
    let text = join(&lines);
    let mut skip = HashSet::new();
    let mut p = ChunkProcessor::new(feed(vec![Ok(text)]), &index, false, &mut skip);
    let got = collect(&mut p);
    for _ in 0..3 {
        check(p.next().is_none(), "something is reported after the end");
    }
    if is_marker {
        cover("marker");
        lines.truncate(at);
    }
    check_contexts(&lines, &numbered(lines.len()), &got);
    if got.len() > 1 {
        cover("several anomalies");
    }
}

/// a read failure after some lines, possibly in the middle of one
fn read_error(fixed: usize, n: usize, utf8: bool) {
    let index = baseline(fixed, &[KNOWN]);
    let mut lines = vec![];
    for i in 0..fixed {
        lines.push(Line { raw: filler(i), known: true, dup: false });
    }
    let k = choose(n + 1);
    for _ in 0..k {
        let x = symbolic_line(&lines[fixed..]);
        lines.push(x);
    }
    let mut text = join(&lines);
    let r = if utf8 {
        // a byte that does not start a character, or a character cut short
        let mut bad = b"wxyz ?vut".to_vec();
        let at = choose(bad.len());
        bad[at] = range(0x80, 0xff);
        text.extend_from_slice(&bad);
        text.push(b'\n');
        vec![Ok(text)]
    } else {
        if flag() {
            text.extend_from_slice(b"partial li");
            cover("in the middle of a line");
        }
        let kind = [ErrorKind::ConnectionReset, ErrorKind::UnexpectedEof, ErrorKind::InvalidData][choose(3)];
        vec![Ok(text), Err(kind)]
    };
    let mut skip = HashSet::new();
    let mut p = ChunkProcessor::new(feed(r), &index, false, &mut skip);
    let mut got = vec![];
    loop {
        match p.next() {
            None => fail("a read failure is not reported"),
            Some(Ok(a)) => got.push(a),
            Some(Err(_)) => break,
        }
        check(got.len() < 100, "the processor does not stop");
    }
    check(p.line_count >= lines.len(), "the line count misses lines that were read");
    check_contexts(&lines, &numbered(lines.len()), &got);
    let mut more = 0;
    while let Some(r) = p.next() {
        check(r.is_ok(), "a read failure is reported twice");
        more += 1;
        check(more < 10, "the processor does not stop");
    }
    if got.len() > 1 {
        cover("several anomalies");
    }
}

/// physical lines and literal `\n` sub-lines: the numbers are those of the physical lines
fn sublines(n: usize) {
    let index = baseline(0, &[KNOWN]);
    let mut lines: Vec<Line> = vec![];
    let mut pos = vec![];
    let mut text = vec![];
    let mut line = 1;
    for _ in 0..n {
        let x = symbolic_line(&lines);
        text.extend_from_slice(&x.raw);
        lines.push(x);
        pos.push(line);
        match choose(3) {
            0 => {
                text.push(b'\n');
                line += 1;
            }
            1 => text.extend_from_slice(b"\\n"),
            _ => {
                text.extend_from_slice(b"\n\n");
                line += 2;
            }
        }
    }
    let mut skip = HashSet::new();
    let mut p = ChunkProcessor::new(feed(vec![Ok(text)]), &index, false, &mut skip);
    let got = collect(&mut p);
    check(p.line_count == n, "the line count is wrong");
    drop(p);
    check_contexts(&lines, &pos, &got);
    if got.windows(2).any(|w| w[0].anomaly.pos == w[1].anomaly.pos) {
        cover("two anomalies on one physical line");
    }
}

/// two sources of one group share the lines already reported
fn two_sources(n: usize) {
    let index = baseline(0, &[KNOWN]);
    let mut all: Vec<Line> = vec![];
    let mut skip = HashSet::new();
    for round in 0..2 {
        let from = all.len();
        for _ in 0..n {
            let x = symbolic_line(&all);
            all.push(x);
        }
        let mut p = ChunkProcessor::new(feed(vec![Ok(join(&all[from..]))]), &index, false, &mut skip);
        let got = collect(&mut p);
        check(p.line_count == n, "the line count is wrong");
        drop(p);
        check_contexts(&all[from..], &numbered(n), &got);
        if round == 1 && all[from..].iter().any(|l| l.dup) {
            cover("seen in the first source");
        }
    }
}

/// lines that share some of their words with the baseline: known up to a distance of 0.3, new above
fn nearby(n: usize) {
    // (words of the baseline line, words of the target, shared ones): distances 0.286, 0.308, 0.262, 0.329
    let kinds = [(7, 7, 5), (13, 13, 9), (10, 9, 7), (10, 8, 6)];
    let words = [
        "alpine", "breeze", "cactus", "dragon", "eleven", "forest", "guitar", "hammer", "island", "jungle", "kitten", "lemons", "marble",
    ];
    let mut lines: Vec<Line> = vec![];
    let mut want = vec![];
    let mut base: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let (w, m, k) = kinds[choose(kinds.len())];
        let mk = |tag: &str, j: usize| format!("{}{}", tag, words[j]);
        let tag = ["kk", "ll", "mm"][i];
        let b: Vec<String> = (0..w).map(|j| mk(tag, j)).collect();
        base.push(b.join(" ").into_bytes());
        // the shared words are anywhere in the line
        let first = choose(m - k + 1);
        let new = over(1, b"xyz")[0] as char;
        let t: Vec<String> =
            (0..m).map(|j| if j >= first && j < first + k { mk(tag, j - first) } else { mk(&format!("q{}{}", tag, new), j) }).collect();
        let d = 1.0 - k as f32 / ((w * m) as f32).sqrt();
        lines.push(Line { raw: t.join(" ").into_bytes(), known: d <= 0.3, dup: false });
        if d > 0.3 {
            want.push(d);
            cover("just above");
        } else {
            cover("just below");
        }
    }
    let refs: Vec<&[u8]> = base.iter().map(|b| &b[..]).collect();
    let index = baseline(0, &refs);
    let mut skip = HashSet::new();
    let mut p = ChunkProcessor::new(feed(vec![Ok(join(&lines))]), &index, false, &mut skip);
    let got = collect(&mut p);
    drop(p);
    check_contexts(&lines, &numbered(n), &got);
    for (g, d) in got.iter().zip(want) {
        check((g.anomaly.distance - d).abs() < 0.001, "an anomaly carries the wrong distance");
    }
}

/// lines that differ from the baseline, and from one another, only in volatile values
fn volatile(n: usize) {
    const DIGIT: &[u8] = b"0123456789";
    const HEX: &[u8] = b"0123456789abcdef";
    let mk = |word: u8| -> Vec<u8> {
        let mut v = b"2023-01-?? ??:??:?? mnop ???? qrst 0x????\n".to_vec();
        for i in 0..v.len() {
            if v[i] == b'?' {
                v[i] = over(1, if i > 34 { HEX } else { DIGIT })[0];
            }
        }
        v[20] = word;
        v[30] = word.wrapping_add(4);
        v.pop();
        v
    };
    let base = mk(b'm');
    let index = baseline(0, &[&base]);
    let mut lines: Vec<Line> = vec![];
    let mut words: Vec<u8> = vec![];
    for _ in 0..n {
        let w = over(1, b"mgh")[0];
        let known = w == b'm';
        let dup = words.iter().any(|x| *x == w);
        words.push(w);
        lines.push(Line { raw: mk(w), known, dup });
    }
    let mut skip = HashSet::new();
    let mut p = ChunkProcessor::new(feed(vec![Ok(join(&lines))]), &index, false, &mut skip);
    let got = collect(&mut p);
    drop(p);
    check_contexts(&lines, &numbered(n), &got);
    if lines.iter().any(|l| l.dup && !l.known) {
        cover("repeated with other values");
    }
}

/// long lines which share their beginning, and differ in the words that follow
fn long(n: usize, train: bool) {
    let size = [20usize, 170, 480][choose(3)];
    let mk = |x: u8, last: u8| -> Vec<u8> {
        let mut v = vec![];
        for i in 0..size {
            let mut w = filler(i * 7 + 5);
            w.truncate(5);
            w.push(if i < size / 4 { b'q' } else { x });
            if i + 1 == size {
                w.push(last);
            }
            w.push(b' ');
            v.extend_from_slice(&w);
        }
        for _ in 0..size * 5 {
            // it may end with a long run of a word seen before
            if v.len() + 8 > 5900 || !train {
                break;
            }
            v.extend_from_slice(b"kgggqq ");
        }
        v.pop();
        v
    };
    let mut lines: Vec<Line> = vec![];
    let mut words: Vec<u8> = vec![];
    for i in 0..n {
        let x = over(1, b"mghi")[0];
        let dup = words.iter().any(|y| *y == x);
        words.push(x);
        let raw = mk(x, b'r');
        lines.push(Line { known: x == b'm' || train, dup, raw });
        let _ = i;
    }
    let index = if train {
        let refs: Vec<&[u8]> = lines.iter().map(|l| &l.raw[..]).collect();
        baseline(2, &refs)
    } else {
        baseline(2, &[&mk(b'm', b'r')])
    };
    let mut skip = HashSet::new();
    let mut p = ChunkProcessor::new(feed(vec![Ok(join(&lines))]), &index, false, &mut skip);
    let got = collect(&mut p);
    drop(p);
    check_contexts(&lines, &numbered(n), &got);
    if size > 400 {
        cover("longer than 3000 bytes");
    }
}

/// every line of the baseline, over several sources and chunks, is known afterwards
fn trained(fixed: usize, slack: usize, n: usize) {
    let mut index = hashing_index::new();
    let mut lines: Vec<Line> = vec![];
    for i in 0..fixed {
        lines.push(Line { raw: filler(i), known: true, dup: false });
    }
    let mut failing = false;
    let (lc, bc);
    {
        let mut t = ChunkTrainer::new(&mut index, false);
        if t.add(feed(vec![Ok(join(&lines))])).is_err() {
            fail("training failed");
        }
        let extra = if slack > 0 { choose(slack + 1) } else { 0 };
        for i in 0..extra {
            lines.push(Line { raw: filler(fixed + i), known: true, dup: false });
        }
        let from = fixed;
        // symbolic lines in one or two sources, the last of which may fail after them
        let cut = choose(n + 1);
        for i in 0..n {
            let mut x = symbolic_line(&lines[fixed + extra..]);
            x.known = true;
            lines.push(x);
            if i + 1 == cut {
                if t.add(feed(vec![Ok(join(&lines[from..]))])).is_err() {
                    fail("training failed");
                }
            }
        }
        let rest = if cut == 0 { &lines[from..] } else { &lines[fixed + extra + cut..] };
        failing = flag();
        let mut pieces = vec![Ok(join(rest))];
        if failing {
            pieces.push(Err(ErrorKind::ConnectionReset));
        }
        let r = t.add(feed(pieces));
        check(r.is_err() == failing, "a failing baseline is not reported");
        t.complete();
        lc = t.line_count;
        bc = t.byte_count;
    }
    check(lc == lines.len(), "the line count of the baseline is wrong");
    check(bc == lines.iter().map(|l| l.raw.len()).sum::<usize>(), "the byte count of the baseline is wrong");
    if failing {
        cover("one source fails");
    }
    let mut skip = HashSet::new();
    let mut p = ChunkProcessor::new(feed(vec![Ok(join(&lines))]), &index, false, &mut skip);
    let got = collect(&mut p);
    check(p.line_count == lines.len(), "the line count is wrong");
    check(got.is_empty(), "a line of the baseline is reported as an anomaly");
    drop(p);
    // and a line that shares nothing with it is reported
    let novel = Line { raw: b"wxyz vutw".to_vec(), known: false, dup: false };
    let mut skip = HashSet::new();
    let one = [novel];
    let mut p = ChunkProcessor::new(feed(vec![Ok(join(&one))]), &index, false, &mut skip);
    let got = collect(&mut p);
    drop(p);
    check_contexts(&one, &[1], &got);
}

fn run(arg: u64) {
    // compile the tokenizer's expressions before anything is symbolic
    let _ = hashing_index::tokenize("warm up-some 42 words [x] a=b c/d e|f (g) aaaa-bbbb-cccc-dddd");
    match arg {
        1 => boundary(0, 0, 5, false, 0),
        2 => boundary(509, 3, 4, false, 0),
        3 => boundary(5118, 3, 4, true, 0),
        4 => own_task(4),
        5 => read_error(0, 4, false),
        6 => read_error(0, 3, true),
        7 => sublines(4),
        8 => two_sources(3),
        9 => volatile(3),
        14 => nearby(2),
        15 => long(3, false),
        16 => long(2, true),
        10 => trained(510, 2, 2),
        11 => trained(0, 0, 4),
        12 => read_error(511, 3, false),
        13 => boundary(5118, 3, 1, true, 5125),
        // --- thorough
        33 => boundary(5117, 4, 2, true, 10300),
        21 => boundary(0, 0, 7, false, 0),
        22 => boundary(507, 5, 6, false, 0),
        23 => boundary(5116, 5, 5, true, 0),
        24 => own_task(6),
        25 => read_error(0, 6, false),
        27 => sublines(5),
        28 => two_sources(4),
        29 => volatile(5),
        35 => long(4, false),
        36 => long(3, true),
        30 => trained(508, 4, 4),
        32 => read_error(509, 5, false),
        _ => fail("no such case"),
    }
}
entry!(run);
