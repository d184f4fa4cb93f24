//! C01/C02/C03: the line iterator against a reference splitter over the whole stream.
use logreduce_iterator::BytesLines;
use std::io::{Error, ErrorKind, Read};
use symrt::*;

/// Reader delivering `data` in pieces chosen by the explorer.
struct Chunks {
    data: Vec<u8>,
    pos: usize,
    /// offered piece sizes (each read picks one; `usize::MAX` = all that fits)
    sizes: &'static [usize],
    /// positions where a read must stop (in addition to the sizes)
    fail_at: Option<usize>,
    failed: usize,
}
impl Read for Chunks {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut left = self.data.len() - self.pos;
        if let Some(f) = self.fail_at {
            if self.pos == f && self.failed == 0 {
                self.failed += 1;
                return Err(Error::from(ErrorKind::ConnectionReset));
            }
            if self.pos < f {
                left = f - self.pos;
            }
        }
        let mut max = left.min(b.len());
        if max > 1 {
            let k = if self.sizes.len() > 1 { choose(self.sizes.len()) } else { 0 };
            max = max.min(self.sizes[k]);
        }
        b[..max].copy_from_slice(&self.data[self.pos..self.pos + max]);
        self.pos += max;
        Ok(max)
    }
}

const LIMIT: usize = 6000;

/// The lines of a stream: (start, end, physical line number).
fn reference(d: &[u8], json: bool) -> Vec<(usize, usize, usize)> {
    let mut out = vec![];
    let (mut start, mut line, mut i) = (0, 1, 0);
    let mut in_string = false;
    let mut push = |s: usize, e: usize, l: usize| {
        if e > s && e - s <= LIMIT {
            out.push((s, e, l))
        }
    };
    while i < d.len() {
        let c = d[i];
        if c == b'\n' {
            push(start, i, line);
            line += 1;
            i += 1;
            start = i;
        } else if c == b'\\' {
            if i + 1 < d.len() {
                if d[i + 1] == b'n' {
                    push(start, i, line);
                    start = i + 2;
                    i += 2;
                } else if d[i + 1] == b'\n' {
                    i += 1;
                } else {
                    i += 2;
                }
            } else {
                i += 1;
            }
        } else {
            if json {
                if c == b'"' {
                    in_string = !in_string;
                } else if !in_string && matches!(c, b',' | b'[' | b']' | b'{' | b'}') {
                    push(start, i, line);
                    start = i + 1;
                }
            }
            i += 1;
        }
    }
    push(start, d.len(), line);
    out
}

fn compare(data: &[u8], got: &[(Vec<u8>, usize)], json: bool) {
    let want = reference(data, json);
    check(got.len() <= want.len(), "the iterator yields more lines than the stream holds");
    check(got.len() >= want.len(), "the iterator loses lines of the stream");
    for ((b, l), (s, e, n)) in got.iter().zip(want.iter()) {
        check(b.len() == e - s, "a line is delivered with the wrong length");
        check(same(b, &data[*s..*e]), "a line is delivered with different bytes");
        check(*l == *n, "a line carries the wrong line number");
    }
    if want.len() > 1 {
        cover("several lines");
    }
    if want.len() > 1 && want[1].2 == want[0].2 {
        cover("sub-lines of one physical line");
    }
}

fn drain(r: Chunks, json: bool) -> Vec<(Vec<u8>, usize)> {
    let mut got = vec![];
    let mut it = BytesLines::new(r, json);
    let mut n = 0;
    while let Some(l) = it.next() {
        match l {
            Ok((b, p)) => got.push((b.to_vec(), p)),
            Err(_) => fail("an error is reported although no read failed"),
        }
        n += 1;
        check(n < 200, "the iterator does not stop");
    }
    // nothing appears after the end
    check(it.next().is_none(), "a line appears after the end of the stream");
    got
}

fn short(n: usize, json: bool, sizes: &'static [usize]) {
    let data = vec(n);
    let got = drain(Chunks { data: data.clone(), pos: 0, sizes, fail_at: None, failed: 0 }, json);
    compare(&data, &got, json);
}

/// a read error in the middle: it is reported once, and no line is lost or invented around it
fn errors(n: usize, json: bool) {
    let data = vec(n);
    let at = choose(n + 1);
    let mut it = BytesLines::new(
        Chunks { data: data.clone(), pos: 0, sizes: &[usize::MAX], fail_at: Some(at), failed: 0 },
        json,
    );
    let mut got: Vec<(Vec<u8>, usize)> = vec![];
    let mut errs = 0;
    loop {
        match it.next() {
            None => break,
            Some(Ok((b, p))) => got.push((b.to_vec(), p)),
            Some(Err(e)) => {
                errs += 1;
                check(e.kind() == ErrorKind::ConnectionReset, "a different error is reported");
                if errs == 1 {
                    // every line complete before the failure was delivered
                    let done = reference(&data[..at], json);
                    let closed = done.iter().filter(|l| l.1 < at).count();
                    check(got.len() >= closed, "a line complete before the read error is missing");
                }
            }
        }
        check(got.len() < 100 && errs < 3, "the iterator does not stop after an error");
    }
    check(errs == 1, "a failing read is not reported exactly once");
    // reading on after the error: the stream is delivered whole
    compare(&data, &got, json);
}

/// lines around the length limit; symbolic bytes at the boundary, chosen read boundaries
fn long(pre: usize, filler: usize, k: usize, json: bool, sizes: &'static [usize], tail: &[u8]) {
    let mut data = vec![];
    for _ in 0..pre {
        data.extend_from_slice(b"ab\n");
    }
    data.resize(data.len() + filler, b'x');
    let s = vec(k);
    data.extend_from_slice(&s);
    data.extend_from_slice(tail);
    let got = drain(Chunks { data: data.clone(), pos: 0, sizes, fail_at: None, failed: 0 }, json);
    compare(&data, &got, json);
}

fn run(arg: u64) {
    match arg {
        // --- short streams, every chunking
        1 => short(6, false, &[usize::MAX, 1, 2]),
        2 => short(5, true, &[usize::MAX, 1, 2]),
        3 => errors(4, false),
        4 => errors(4, true),
        // --- around the limit
        10 => {
            // the limit is crossed inside the symbolic window
            let f = LIMIT - 4 + choose(5);
            long(1, f, 3, false, &[usize::MAX, LIMIT, 4096], b"yz\nlast")
        }
        18 | 19 => {
            // the stream ends there, and a read may end anywhere in the window
            let f = LIMIT - 3 + choose(4);
            let sizes: &'static [usize] = [&[usize::MAX, LIMIT][..], &[LIMIT], &[LIMIT + 1], &[LIMIT + 2], &[LIMIT + 3], &[LIMIT + 4]][choose(6)];
            long(arg as usize - 18, f, 3, arg == 19, sizes, b"")
        }
        11 => {
            // far over the limit: the end is found in a later chunk
            let f = [8190, 8191, 12000, 14190, 16382][choose(5)];
            long(0, f, 3, false, &[usize::MAX, 8191], b"\nyz\\nw\nlast\n")
        }
        12 => {
            let f = [LIMIT - 1, 8190, 14190][choose(3)];
            long(1, f, 2, true, &[usize::MAX, LIMIT], b",yz,\"a,b\"\nlast")
        }
        13 => {
            // several over-long lines in a row, the last one not terminated
            let mut data = vec![];
            for _ in 0..2 {
                let f = [5999, 6001, 9000][choose(3)];
                data.resize(data.len() + f, b'x');
                data.extend_from_slice(&over(1, b"\nn\\a"));
                data.extend_from_slice(&over(1, b"\nn\\a"));
            }
            data.extend_from_slice(b"zz");
            let got = drain(Chunks { data: data.clone(), pos: 0, sizes: &[usize::MAX], fail_at: None, failed: 0 }, false);
            compare(&data, &got, false);
        }
        14 => {
            // long runs of blank lines
            let mut data = vec![b'\n'; 130_000];
            data.extend_from_slice(&vec(3));
            let got = drain(Chunks { data: data.clone(), pos: 0, sizes: &[usize::MAX], fail_at: None, failed: 0 }, false);
            compare(&data, &got, false);
        }
        15 => {
            // a very long line from a reader that delivers a few bytes at a time
            let n = choose(2);
            let mut data = vec![b'x'; [14_000, 70_000][n]];
            data.extend_from_slice(&vec(2));
            data.extend_from_slice(b"\nlast");
            let got = drain(Chunks { data: data.clone(), pos: 0, sizes: [&[1], &[7]][n], fail_at: None, failed: 0 }, false);
            compare(&data, &got, false);
        }
        16 | 17 => {
            // earlier parts of the same physical line, an over-long part, what follows it
            let json = arg == 16;
            let alpha: &[u8] = if json { b",\"\na" } else { b"\\n\na" };
            let mut data = b"ab".to_vec();
            data.extend_from_slice(&over(2, alpha));
            let f = [6001, 8191, 20000][choose(3)];
            data.resize(data.len() + f, b'x');
            data.extend_from_slice(&over(2, alpha));
            data.extend_from_slice(if json { b"yz,w\nlast,\nend" } else { b"yz\\nw\nlast\\n\nend" });
            let got = drain(Chunks { data: data.clone(), pos: 0, sizes: &[usize::MAX, 8191], fail_at: None, failed: 0 }, json);
            compare(&data, &got, json);
        }
        // --- thorough
        25 => {
            let f = LIMIT - 6 + choose(9);
            long(1, f, 5, false, &[usize::MAX, LIMIT, 4096], b"yz\nlast")
        }
        26 => {
            let f = [8188, 8190, 8191, 8192, 12000, 14190, 16380, 16382, 24574][choose(9)];
            long(0, f, 4, true, &[usize::MAX, 8191, 4096], b"\nyz\\nw,\nlast\n")
        }
        21 => short(8, false, &[usize::MAX, 1, 2]),
        22 => short(7, true, &[usize::MAX, 1, 2, 3]),
        23 => errors(6, false),
        24 => errors(6, true),
        _ => fail("no such case"),
    }
}
entry!(run);
