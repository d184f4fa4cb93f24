//! C20: the command line, on an in-memory file system.
use symos::Op;
use symrt::*;

#[path = "/repo/cli/src"]
mod cli {
    include!("/repo/cli/src/main.rs");
    /// run a command; its output and whether it succeeded
    pub fn drive(args: &[&str]) -> (bool, Vec<u8>) {
        drive_mode(args, OutputMode::Quiet)
    }
    pub fn drive_mode(args: &[&str], mode: OutputMode) -> (bool, Vec<u8>) {
        let mut v = vec!["logreduce"];
        v.extend_from_slice(args);
        symos::capture(true);
        let ok = match Cli::try_parse_from(v) {
            Ok(c) => c.run(mode).is_ok(),
            Err(_) => false,
        };
        symos::capture(false);
        (ok, symos::output())
    }
}
use cli::drive;

const KNOWN: &str = "starting service worker\n";
/// what the user reads
#[derive(Debug)]
enum Out {
    /// an anomaly, its number and text
    New(usize, Vec<u8>),
    Context(usize, Vec<u8>),
    Gap,
    Failed(Vec<u8>),
    NoBaseline(Vec<u8>),
}
fn find(t: &[u8], w: &[u8]) -> Option<usize> {
    (0..(t.len() + 1).saturating_sub(w.len())).find(|i| &t[*i..*i + w.len()] == w)
}
fn read(out: &[u8]) -> Vec<Out> {
    let mut v = vec![];
    for l in out.split(|c| *c == b'\n') {
        if l.is_empty() {
            continue;
        }
        if l == b"--" {
            v.push(Out::Gap);
            continue;
        }
        // the number is before the bar
        if let Some(bar) = find(&l[..l.len().min(16)], b" | ") {
            let head = std::str::from_utf8(&l[..bar]).unwrap_or("");
            let w: Vec<&str> = head.split_whitespace().collect();
            let n = w.last().and_then(|n| n.parse::<usize>().ok());
            if let Some(n) = n {
                let t = l[bar + 3..].to_vec();
                v.push(if w.len() == 1 { Out::Context(n, t) } else { Out::New(n, t) });
                continue;
            }
        }
        if find(l, b"Could not read").is_some() {
            v.push(Out::Failed(l.to_vec()));
        } else if find(l, b"No baselines").is_some() {
            v.push(Out::NoBaseline(l.to_vec()));
        } else {
            fail("something else is printed")
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Clean,
    New,
    NoOpen,
    Broken,
    Binary,
    NoBase,
}
use St::*;
static mut BAD: Vec<(Vec<u8>, St)> = Vec::new();
#[allow(static_mut_refs)]
fn faults(op: Op, p: &[u8], n: usize) -> Result<usize, i32> {
    for (q, s) in unsafe { &BAD } {
        if &q[..] == p {
            if *s == NoOpen && op == Op::Open {
                return Err(symos::EACCES);
            }
            if *s == Broken && op == Op::Read && n == 0 {
                return Err(symos::EIO);
            }
        }
    }
    Ok(n)
}

/// every source is accounted for, in order
fn accounting(n: usize) {
    symos::file(b"/vfs/b/alpha.log", KNOWN.as_bytes());
    symos::file(b"/vfs/b/beta.log", KNOWN.as_bytes());
    let mut files = vec![];
    for i in 0..n {
        let st = [Clean, New, NoOpen, Broken, Binary, NoBase][choose(6)];
        let path = match st {
            NoBase => format!("/vfs/t/gamma{}.log", i),
            _ => format!("/vfs/t/alpha.log.{}", i),
        };
        let mut line = vec![b'p' + i as u8];
        line.extend_from_slice(&over(3, b"ghijklmnop"));
        line.extend_from_slice(b" crashed unexpectedly");
        let mut data = KNOWN.as_bytes().to_vec();
        if matches!(st, New | Broken | Binary) {
            data.extend_from_slice(&line);
            data.push(b'\n');
        }
        if st == Binary {
            data.extend_from_slice(b"more \xff\xfe bytes\nand a last line\n");
        }
        symos::file(path.as_bytes(), &data);
        #[allow(static_mut_refs)]
        unsafe {
            BAD.push((path.clone().into_bytes(), st))
        };
        files.push((path, st, line));
    }
    symos::set_fault(Some(faults));
    let (ok, out) = drive(&["diff", "/vfs/b", "/vfs/t"]);
    check(ok, "one bad source makes the command fail");
    let out = read(&out);
    let mut seen = 0;
    for (path, st, line) in &files {
        let name = &path.as_bytes()[7..];
        let mine = |l: &[u8]| find(l, name).is_some();
        let failed = out.iter().filter(|o| matches!(o, Out::Failed(l) if mine(l))).count();
        let none = out.iter().filter(|o| matches!(o, Out::NoBaseline(l) if mine(l))).count();
        let at = out.iter().position(|o| matches!(o, Out::New(_, l) if l.len() == line.len() && same(l, line)));
        check(none == (*st == NoBase) as usize, "a source without a baseline is not reported as such, or one with a baseline is");
        check(failed == matches!(st, NoOpen | Broken | Binary) as usize, "a source that can't be read is not reported, or a readable one is");
        seen += failed + none;
        match st {
            New | Broken | Binary => {
                let i = match at {
                    Some(i) => i,
                    None => fail("an anomaly is not printed"),
                };
                check(matches!(&out[i], Out::New(2, _)), "an anomaly is printed with the wrong number");
                check(i > 0 && matches!(&out[i - 1], Out::Context(1, t) if t == KNOWN.trim_end().as_bytes()), "an anomaly has the wrong context");
                if *st != New {
                    let f = out.iter().position(|o| matches!(o, Out::Failed(l) if mine(l))).unwrap_or(0);
                    check(f > i, "the failure of a source is printed before what was read of it");
                    cover("failed");
                }
                seen += 2;
            }
            _ => check(at.is_none(), "something that is not an anomaly is printed"),
        }
    }
    check(out.len() == seen, "something else is printed");
    cover("printed");
}

/// the lines around the anomalies
fn layout(n: usize, sub: bool) {
    symos::file(b"/vfs/b.log", KNOWN.as_bytes());
    let mut lines: Vec<(bool, Vec<u8>)> = vec![];
    let mut text = vec![];
    // a long file: two lines are new, wherever they are
    let two = if n > 9 { Some((choose(n), choose(n))) } else { None };
    for i in 0..n {
        let new = match two {
            Some((a, b)) => i == a || i == b,
            None => flag(),
        };
        let l = if new {
            let mut l = vec![b'g' + i as u8];
            l.extend_from_slice(&over(3, b"ghijklmnop"));
            l.extend_from_slice(b" crashed");
            l
        } else {
            KNOWN.trim_end().as_bytes().to_vec()
        };
        text.extend_from_slice(&l);
        text.extend_from_slice(if sub && i + 1 < n { b"\\n" } else { b"\n" });
        lines.push((new, l));
    }
    symos::file(b"/vfs/t.log", &text);
    let (ok, out) = drive(&["diff", "/vfs/b.log", "/vfs/t.log"]);
    check(ok, "the command fails");
    let out = read(&out);
    // the lines to be shown: anomalies, and the 3 lines around them
    let shown: Vec<bool> = (0..n)
        .map(|i| (0..n).any(|j| lines[j].0 && (i as i64 - j as i64).abs() <= 3))
        .collect();
    let mut o = out.iter();
    let mut last = None;
    for i in 0..n {
        if !shown[i] {
            continue;
        }
        let gap = last.map_or(false, |l| l + 1 != i);
        if gap && !sub {
            check(matches!(o.next(), Some(Out::Gap)), "no separator between lines that are not adjacent");
            cover("separator");
        }
        last = Some(i);
        let mut x = o.next();
        if sub {
            while matches!(x, Some(Out::Gap)) {
                x = o.next();
            }
        }
        match x {
            Some(Out::New(nr, t)) => {
                check(lines[i].0, "a known line is printed as an anomaly");
                check(*nr == if sub { 1 } else { i + 1 }, "an anomaly is printed with the wrong number");
                check(t.len() == lines[i].1.len() && same(t, &lines[i].1), "an anomaly is not printed as it is");
            }
            Some(Out::Context(nr, t)) => {
                check(!lines[i].0, "an anomaly is printed as context");
                check(sub || *nr == i + 1, "a context line is printed with the wrong number");
                check(t.len() == lines[i].1.len() && same(t, &lines[i].1), "a context line is not printed as it is");
            }
            Some(Out::Gap) => fail("a separator between adjacent lines"),
            _ => fail("a line is not printed"),
        }
    }
    check(o.next().is_none(), "something else is printed");
    cover("printed");
}

/// the same new line in several sources is printed for each
fn repeated(n: usize) {
    symos::file(b"/vfs/b/alpha.log", KNOWN.as_bytes());
    let mut line = over(4, b"ghijklmnop");
    line.extend_from_slice(b" crashed unexpectedly");
    for i in 0..n {
        let mut data = KNOWN.as_bytes().to_vec();
        data.extend_from_slice(&line);
        data.push(b'\n');
        symos::file(format!("/vfs/t/alpha.log.{}", i).as_bytes(), &data);
    }
    let (ok, out) = drive(&["diff", "/vfs/b", "/vfs/t"]);
    check(ok, "the command fails");
    let out = read(&out);
    check(out.len() == 2 * n, "an anomaly is not printed for each source that has it");
    for (i, o) in out.iter().enumerate() {
        match o {
            Out::Context(1, t) => check(i % 2 == 0 && t == KNOWN.trim_end().as_bytes(), "an anomaly has the wrong context"),
            Out::New(2, t) => check(i % 2 == 1 && t.len() == line.len() && same(t, &line), "an anomaly is not printed as it is"),
            _ => fail("something else is printed"),
        }
    }
    cover("printed");
}

/// a file of many new lines: every one is printed
fn bulk(n: usize) {
    symos::file(b"/vfs/b.log", KNOWN.as_bytes());
    let mut text = vec![];
    let mut lines = vec![];
    let at = [0, 511, n - 1][choose(3)];
    for i in 0..n {
        let mut l = b"zz".to_vec();
        let mut k = i;
        for _ in 0..4 {
            l.push(b'g' + (k % 16) as u8);
            k /= 16;
        }
        if i == at {
            l = b"y".to_vec();
            l.extend_from_slice(&over(4, b"ghijklmnop"));
        }
        l.extend_from_slice(b" crashed");
        text.extend_from_slice(&l);
        text.push(b'\n');
        lines.push(l);
    }
    symos::file(b"/vfs/t.log", &text);
    let (ok, out) = drive(&["diff", "/vfs/b.log", "/vfs/t.log"]);
    check(ok, "the command fails");
    let out = read(&out);
    check(out.len() == n, "lines are not printed, or something else is");
    for (i, o) in out.iter().enumerate() {
        match o {
            Out::New(nr, t) => {
                check(*nr == i + 1, "an anomaly is printed with the wrong number");
                check(t.len() == lines[i].len() && same(t, &lines[i]), "an anomaly is not printed as it is");
            }
            Out::Gap => fail("a separator between adjacent lines"),
            _ => fail("an anomaly is printed as context"),
        }
    }
    cover("printed");
}

fn setup() -> Vec<u8> {
    symos::mkdirs("/vfs/out");
    symos::file(b"/vfs/b/alpha.log", KNOWN.as_bytes());
    symos::file(b"/vfs/b2/alpha.log", b"other service stopped\n");
    let mut l = over(2, b"ghijklmnop");
    l.extend_from_slice(b" crashed <unexpectedly>\n");
    let mut t = KNOWN.as_bytes().to_vec();
    t.extend_from_slice(b"other service stopped\n");
    t.extend_from_slice(&l);
    symos::file(b"/vfs/t/alpha.log", &t);
    l.pop();
    l
}
fn anomalies(o: &[u8]) -> Vec<Vec<u8>> {
    read(o).into_iter().filter_map(|o| if let Out::New(_, t) = o { Some(t) } else { None }).collect()
}
const NOPE: &[&str] = &[];
static mut DENY: &[u8] = b"";
fn deny(op: Op, p: &[u8], n: usize) -> Result<usize, i32> {
    unsafe {
        if !DENY.is_empty() && p.starts_with(DENY) && matches!(op, Op::Create | Op::Write) {
            return Err(if op == Op::Create { symos::EACCES } else { symos::ENOSPC });
        }
    }
    Ok(n)
}

/// the model: made once, used again
fn model() {
    let line = setup();
    let _ = NOPE;
    let (ok, want) = drive(&["diff", "/vfs/b", "/vfs/b2", "/vfs/t"]);
    check(ok, "the command fails");
    let a = anomalies(&want);
    check(a.len() == 1 && a[0].len() == line.len() && same(&a[0], &line), "the baselines are not all used");
    let (ok, one) = drive(&["diff", "/vfs/b", "/vfs/t"]);
    check(ok && anomalies(&one).len() == 2, "a baseline that was not given is used");
    check(symos::read_file(b"/vfs/out/m").is_none() && symos::files().len() == 3, "a file is written though none was asked for");
    if flag() {
        // saved by the comparison
        let (ok, out) = drive(&["--model", "/vfs/out/m", "diff", "/vfs/b", "/vfs/b2", "/vfs/t"]);
        check(ok, "the command fails");
        check(out.len() == want.len() && same(&out, &want), "saving the model changes the result");
    } else {
        check(!drive(&["train", "/vfs/b"]).0, "a model is trained for nothing");
        let (ok, _) = drive(&["--model", "/vfs/out/m", "train", "/vfs/b", "/vfs/b2"]);
        check(ok, "the command fails");
    }
    let saved = match symos::read_file(b"/vfs/out/m") {
        Some(m) => m,
        None => fail("the model is not saved"),
    };
    // the baselines are not needed any more
    symos::file(b"/vfs/b/alpha.log", b"something else\n");
    let (ok, out) = drive(&["--model", "/vfs/out/m", "path", "/vfs/t"]);
    check(ok, "a saved model can't be used");
    check(out.len() == want.len() && same(&out, &want), "a saved model gives another result");
    check(!drive(&["--model", "/vfs/out/m", "diff", "/vfs/b", "/vfs/t"]).0, "baselines are ignored when there is a model");
    check(symos::read_file(b"/vfs/out/m") == Some(saved), "using a model changes it");
    // it may be shared and protected
    symos::set_fault(Some(deny));
    unsafe { DENY = b"/vfs/out/m" };
    check(drive(&["--model", "/vfs/out/m", "path", "/vfs/t"]).0, "a saved model that is read-only can't be used");
    symos::set_fault(None);
    unsafe { DENY = b"" };
    cover("used again");
    // errors
    symos::file(b"/vfs/out/bad", b"this is not a model");
    check(!drive(&["--model", "/vfs/out/bad", "path", "/vfs/t"]).0, "a foreign file is used as a model");
    check(symos::read_file(b"/vfs/out/bad") == Some(b"this is not a model".to_vec()), "a foreign file is overwritten");
    check(!drive(&["diff", "/vfs/missing", "/vfs/t"]).0, "a missing baseline is ignored");
    check(!drive(&["diff", "/vfs/b", "/vfs/missing"]).0, "a missing target is ignored");
    check(!drive(&["path", "/vfs/t"]).0, "a directory without a baseline is analysed");
    check(!drive(&["--model", "/vfs/out/n", "train", "/vfs/b", "/vfs/missing"]).0, "a missing baseline is ignored");
    symos::set_fault(Some(deny));
    unsafe { DENY = [&b"/vfs/out/n"[..], b"/vfs/out/n"][choose(1)] };
    check(!drive(&["--model", "/vfs/out/n", "train", "/vfs/b"]).0, "a model that can't be saved is not reported");
    check(!drive(&["--model", "/vfs/out/n", "diff", "/vfs/b", "/vfs/t"]).0, "a model that can't be saved is not reported");
}

/// the html report
fn report() {
    let line = setup();
    if flag() {
        symos::set_env("LOGREDUCE_CACHE", "1");
        cover("raw report");
    }
    // any name, also the one of a previous report
    let name = ["/vfs/out/r.html", "/vfs/out/report", "/vfs/out/r.txt"][choose(3)];
    if flag() {
        symos::file(name.as_bytes(), &vec![b'!'; 300_000]);
    }
    let (ok, out) = drive(&["--report", name, "diff", "/vfs/b", "/vfs/b2", "/vfs/t"]);
    check(ok, "the command fails");
    check(read_quiet(&out), "the anomalies are printed as well as reported");
    let h = match symos::read_file(name.as_bytes()) {
        Some(h) => h,
        None => fail("the report is not written"),
    };
    let part = &line[..10];
    check(find(&h, part).is_some(), "an anomaly is not in the report");
    check(find(&h, b"!!!!").is_none(), "a previous report is not replaced");
    if let Some(j) = symos::read_file(b"/vfs/out/r.json") {
        symos::file(b"/vfs/out/copy", &j);
        match logreduce_model::Report::load(std::path::Path::new("/vfs/out/copy")) {
            Ok(r) => check(r.total_anomaly_count == 1 && r.total_line_count == 3, "the raw report is another one"),
            Err(_) => fail("the raw report can't be loaded"),
        }
    }
    symos::set_fault(Some(deny));
    unsafe { DENY = b"/vfs/out/s" };
    check(!drive(&["--report", "/vfs/out/s.html", "diff", "/vfs/b", "/vfs/t"]).0, "a report that can't be written is not reported");
    cover("written");
}
fn read_quiet(o: &[u8]) -> bool {
    find(o, b"crashed").is_none()
}

/// analysing a log compares it with the previous one
fn path() {
    let mut l = over(3, b"ghijklmnop");
    l.extend_from_slice(b" crashed");
    let mut t = KNOWN.as_bytes().to_vec();
    t.extend_from_slice(&l);
    t.push(b'\n');
    symos::file(b"/vfs/x.log", &t);
    let prev = flag();
    if prev {
        symos::file(b"/vfs/x.log.0", KNOWN.as_bytes());
    }
    let (ok, out) = drive(&["path", "/vfs/x.log"]);
    check(ok == prev, "a log without a previous one is analysed, or one with it is not");
    if ok {
        let a = anomalies(&out);
        check(a.len() == 1 && a[0].len() == l.len() && same(&a[0], &l), "a log is not compared with the previous one");
        // on a terminal there is progress as well
        let (ok, out) = cli::drive_mode(&["path", "/vfs/x.log"], logreduce_model::OutputMode::FastTerminal);
        check(ok, "the command fails on a terminal");
        let mut own = vec![b' '];
        own.extend_from_slice(b"| ");
        own.extend_from_slice(&l);
        let hits = out.split(|c| *c == b'\n').filter(|t| t.len() > own.len() && same(&t[t.len() - own.len()..], &own) && t[0].is_ascii_digit()).count();
        check(hits == 1, "an anomaly is not printed on a line of its own");
        cover("compared");
    } else {
        cover("refused");
    }
}

/// the evaluation of datasets
const PREFIX: [&[u8]; 3] = [b"p", b"q", b"r"];
struct Ds {
    /// the new lines of the target
    new: Vec<Vec<u8>>,
    /// what is expected
    want: Vec<&'static str>,
}
/// `n` lines, of which some are new; at most `m` are expected
fn dataset(dir: &str, n: usize, m: usize) -> Ds {
    let mut good = KNOWN.as_bytes().to_vec();
    good.extend_from_slice(b"other service stopped\n");
    symos::file(format!("{}/x.good", dir).as_bytes(), &good);
    let mut text = vec![];
    let mut new = vec![];
    for i in 0..n {
        let l = if flag() {
            let mut l = PREFIX[i].to_vec();
            l.extend_from_slice(&over(1, b"xyz"));
            l.extend_from_slice(b"or crashed");
            new.push(l.clone());
            l
        } else {
            KNOWN.trim_end().as_bytes().to_vec()
        };
        text.extend_from_slice(&l);
        text.push(b'\n');
    }
    symos::file(format!("{}/x.fail", dir).as_bytes(), &text);
    symos::file(format!("{}/notes", dir).as_bytes(), b"nothing\n");
    let k = choose(m + 1);
    let mut inf = if k == 0 { "anomalies: []\n".to_string() } else { "anomalies:\n".to_string() };
    let mut want = vec![];
    for _ in 0..k {
        let w = ["crashed", "pxor", "qyor crashed"][choose(3)];
        // blanks around the text do not count
        inf.push_str(&match want.len() {
            0 => format!("  - line: \" {}  \"\n", w),
            1 => format!("  - line: |\n      {}\n", w),
            _ => format!("  - line: {}\n", w),
        });
        want.push(w);
    }
    symos::file(format!("{}/inf.yaml", dir).as_bytes(), inf.as_bytes());
    Ds { new, want }
}
/// the evaluation has to succeed
fn met(d: &Ds) -> bool {
    let mut ok = d.new.len() == d.want.len();
    for (l, w) in d.new.iter().zip(&d.want) {
        let w = w.as_bytes();
        let mut has = false;
        for i in 0..(l.len() + 1).saturating_sub(w.len()) {
            has |= same(&l[i..i + w.len()], w);
        }
        ok &= has;
    }
    ok
}
fn datasets(n: usize, m: usize, dirs: usize) {
    let mut ok = true;
    let names = ["/vfs/d0", "/vfs/d1"];
    for d in &names[..dirs] {
        ok &= met(&dataset(d, n, m));
    }
    let mut args = vec!["test"];
    args.extend_from_slice(&names[..dirs]);
    let got = drive(&args).0;
    check(got == ok, "an evaluation succeeds though a dataset is not met, or fails though all are");
    if got {
        cover("met")
    } else {
        cover("not met")
    }
}
/// many lines, many anomalies, of which one may differ
fn large_dataset(lines: usize, n: usize) {
    let word = |c: char, i: usize| {
        let mut w = String::from(c);
        let mut i = i + 300;
        while i > 0 {
            w.push((b'g' + (i % 16) as u8) as char);
            i /= 16;
        }
        w
    };
    let (mut good, mut text, mut inf) = (vec![], vec![], "anomalies:\n".to_string());
    for i in 0..lines {
        let l = format!("{} {}\n", word('r', i), word('s', i));
        good.extend_from_slice(l.as_bytes());
        if i % (lines / n) == 2 {
            text.extend_from_slice(format!("{} {} crashed\n", word('p', i), word('q', i)).as_bytes());
        }
        text.extend_from_slice(l.as_bytes());
    }
    let at = [0, n / 2, n - 1][choose(3)];
    let sym = over(1, b"pxy")[0];
    for k in 0..n {
        let i = k * (lines / n) + 2;
        let mut w = word('p', i).into_bytes();
        if k == at {
            w[0] = sym;
        }
        inf.push_str("  - line: ");
        inf.push_str(&unsafe { String::from_utf8_unchecked(w) });
        inf.push('\n');
    }
    // only the ends of the names count
    let dir = ["/vfs/d0", "/vfs/d0.fail"][choose(2)];
    let file = |n: &str, t: &[u8]| symos::file(format!("{}/{}", dir, n).as_bytes(), t);
    let [g, f] = [["x.good", "x.fail"], ["c.fail.good", "b-good.fail"]][choose(2)];
    for n in ["a-good.txt", "a-fail", "a.good.1", "a.fail.gz", "good", "fail"] {
        file(n, b"nothing\n");
    }
    file(g, &good);
    file(f, &text);
    file("inf.yaml", inf.as_bytes());
    let got = drive(&["test", dir]).0;
    check(got == (sym == b'p'), "an evaluation succeeds though a dataset is not met, or fails though all are");
    cover(if got { "met" } else { "not met" });
}
/// a dataset that can't be evaluated is never a success
static mut GONE: &[u8] = b"";
fn unusable(op: Op, p: &[u8], n: usize) -> Result<usize, i32> {
    unsafe {
        if p == GONE && (op == Op::Open || op == Op::Read) {
            return Err(if op == Op::Open { symos::EACCES } else { symos::EIO });
        }
    }
    Ok(n)
}
fn late(op: Op, p: &[u8], n: usize) -> Result<usize, i32> {
    unsafe {
        if p == GONE && op == Op::Read && n == 0 {
            return Err(symos::EIO);
        }
    }
    Ok(n)
}
fn unusable_dataset() {
    let file = |n: &str, t: &[u8]| symos::file(format!("/vfs/d0/{}", n).as_bytes(), t);
    let target = [&b"known line of the service\nnew failure appeared\n"[..], b"known line of the service\n"][choose(2)];
    let inf = if target.len() > 30 { &b"anomalies:\n  - line: appeared\n"[..] } else { b"anomalies: []\n" };
    symos::mkdirs("/vfs/d0");
    let missing = choose(4);
    if missing != 1 {
        file("x.good", b"known line of the service\n");
    }
    if missing != 2 {
        file("x.fail", target);
    }
    if missing != 3 {
        file("inf.yaml", inf);
    }
    if missing != 0 {
        check(!drive(&["test", "/vfs/d0"]).0, "an evaluation succeeds though a file is missing");
        cover("missing");
        return;
    }
    check(drive(&["test", "/vfs/d0"]).0, "an evaluation fails though the dataset is met");
    check(!drive(&["test", "/vfs/d0", "/vfs/d1"]).0, "a missing dataset is ignored");
    check(!drive(&["test", "/vfs/d1", "/vfs/d0"]).0, "a missing dataset is ignored");
    check(!drive(&["test"]).0, "nothing is evaluated");
    match choose(5) {
        0 => file("inf.yaml", b"anomalies: [1, 2\n"),
        1 => file("inf.yaml", b"expected:\n  - line: appeared\n"),
        2 => unsafe { GONE = b"/vfs/d0/inf.yaml" },
        3 => unsafe { GONE = b"/vfs/d0/x.fail" },
        _ => {
            unsafe { GONE = b"/vfs/d0/x.fail" };
            symos::set_fault(Some(late));
            check(!drive(&["test", "/vfs/d0"]).0, "an evaluation succeeds though a file can't be read to the end");
            cover("cut");
            return;
        }
    }
    symos::set_fault(Some(unusable));
    check(!drive(&["test", "/vfs/d0"]).0, "an evaluation succeeds though a file is not usable");
    cover("unusable");
}

fn run(arg: u64) {
    symos::init();
    match arg {
        1 => accounting(2),
        11 => accounting(3),
        2 => layout(6, false),
        12 => layout(9, false),
        7 => layout(11, false),
        3 => layout(4, true),
        8 => repeated(3),
        9 => bulk(600),
        19 => bulk(5300),
        4 => model(),
        5 => report(),
        6 => path(),
        30 => datasets(2, 2, 1),
        33 => large_dataset(680, 40),
        31 => unusable_dataset(),
        32 => datasets(1, 1, 2),
        40 => datasets(3, 3, 1),
        _ => fail("no such case"),
    }
}
entry!(run);
