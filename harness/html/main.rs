//! C19: the html report, read back by an html parser.
use logreduce_model::{Anomaly, AnomalyContext, Content, IndexName, IndexReport, LogReport, Report, Source};
use std::path::PathBuf;
use std::time::{Duration, SystemTime};
use symrt::*;

/// what an html parser sees
enum Ev {
    Open(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>),
    Close(Vec<u8>),
    Text(Vec<u8>),
}

/// decode the character references of a text
fn decode(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    'next: while i < b.len() {
        if b[i] == b'&' {
            for (n, c) in [("amp;", b'&'), ("lt;", b'<'), ("gt;", b'>'), ("quot;", b'"'), ("apos;", b'\'')] {
                let n = n.as_bytes();
                if b.len() > i + n.len() && &b[i + 1..i + 1 + n.len()] == n {
                    v.push(c);
                    i += 1 + n.len();
                    continue 'next;
                }
            }
            if b.len() > i + 2 && b[i + 1] == b'#' {
                let (hex, mut j) = if b[i + 2] == b'x' || b[i + 2] == b'X' { (16, i + 3) } else { (10, i + 2) };
                let (mut n, from) = (0u32, j);
                while j < b.len() && (b[j] as char).is_digit(hex) && j - from < 6 {
                    n = n * hex + (b[j] as char).to_digit(hex).unwrap();
                    j += 1;
                }
                if j > from && j < b.len() && b[j] == b';' {
                    let mut t = [0; 4];
                    v.extend_from_slice(char::from_u32(n).unwrap_or('?').encode_utf8(&mut t).as_bytes());
                    i = j + 1;
                    continue 'next;
                }
            }
        }
        v.push(b[i]);
        i += 1;
    }
    v
}
fn space(c: u8) -> bool {
    c == b' ' || c == b'\n' || c == b'\t' || c == b'\r'
}

fn parse(b: &[u8]) -> Vec<Ev> {
    let mut evs = vec![];
    let mut i = 0;
    let mut text = vec![];
    let mut flush = |text: &mut Vec<u8>, evs: &mut Vec<Ev>| {
        let mut t = std::mem::take(text);
        while t.last().map_or(false, |c| space(*c)) {
            t.pop();
        }
        if t.first() == Some(&b'\n') {
            t.remove(0);
        }
        if !t.is_empty() {
            evs.push(Ev::Text(decode(&t)));
        }
    };
    while i < b.len() {
        let tag = b[i] == b'<' && i + 1 < b.len() && (b[i + 1].is_ascii_alphabetic() || b[i + 1] == b'/' || b[i + 1] == b'!' || b[i + 1] == b'?');
        if !tag {
            text.push(b[i]);
            i += 1;
            continue;
        }
        flush(&mut text, &mut evs);
        i += 1;
        if b[i] == b'!' || b[i] == b'?' {
            // a comment or a declaration
            let from = i;
            while i < b.len() && b[i] != b'>' {
                i += 1;
            }
            i += 1;
            if !b[from..].starts_with(b"!DOCTYPE") {
                evs.push(Ev::Open(b"!".to_vec(), vec![]));
            }
            continue;
        }
        let close = b[i] == b'/';
        if close {
            i += 1;
        }
        let from = i;
        while i < b.len() && !space(b[i]) && b[i] != b'>' && b[i] != b'/' {
            i += 1;
        }
        let name = b[from..i].to_vec();
        let mut attrs = vec![];
        loop {
            while i < b.len() && (space(b[i]) || b[i] == b'/') {
                i += 1;
            }
            if i >= b.len() || b[i] == b'>' {
                i += 1;
                break;
            }
            let from = i;
            while i < b.len() && !space(b[i]) && b[i] != b'>' && b[i] != b'=' && b[i] != b'/' {
                i += 1;
            }
            let key = b[from..i].to_vec();
            let mut value = vec![];
            if i < b.len() && b[i] == b'=' {
                i += 1;
                if i < b.len() && (b[i] == b'"' || b[i] == b'\'') {
                    let q = b[i];
                    i += 1;
                    let from = i;
                    while i < b.len() && b[i] != q {
                        i += 1;
                    }
                    value = decode(&b[from..i.min(b.len())]);
                    i += 1;
                } else {
                    let from = i;
                    while i < b.len() && !space(b[i]) && b[i] != b'>' {
                        i += 1;
                    }
                    value = decode(&b[from..i]);
                }
            }
            attrs.push((key, value));
        }
        let raw = name == b"script" || name == b"style";
        if close {
            evs.push(Ev::Close(name));
        } else {
            if raw {
                // nothing but the end tag is markup
                let end: &[u8] = if name == b"script" { b"</script" } else { b"</style" };
                while i < b.len() && !b[i..].starts_with(end) {
                    i += 1;
                }
            }
            evs.push(Ev::Open(name, attrs));
        }
    }
    flush(&mut text, &mut evs);
    evs
}

const HARD: &[u8] = b"<>&\"'a;#/";
fn utf(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
/// a text that would be markup if it were copied as it is
fn hard(n: usize) -> String {
    match choose(7) {
        5 => {
            // long texts, to the last character
            let mut v = vec![b'l'; [70, 300, 1100, 5990][choose(4)]];
            v.extend(over(n, HARD));
            v.push(b'z');
            utf(v)
        }
        6 => ["  two  blanks", "tab\tand\t tab", "\u{1b}[31mred\u{1b}[0m", "nul \u{1} bell \u{7}", "100% {{ x }} {% y %} $z", "\u{a0}x\u{200b}y"][choose(6)].to_string(),
        0 => utf(over(n, HARD)),
        1 => {
            let mut v = b"x ".to_vec();
            v.extend(over(n, HARD));
            v.extend_from_slice(b" z");
            utf(v)
        }
        2 => ["</pre><script>alert(1)</script>", "<b>bold</b>", "&lt;&amp;&#60;", "<!-- x", "'><i x=\"y", "\"onclick='x'", "</title></td></a>"][choose(7)].to_string(),
        3 => format!("&{}", utf(over(n, b"lt;#6amp0"))),
        _ => "caf\u{e9} \u{1F600} <\u{e9}>".to_string(),
    }
}
/// the same characters seen as text: blanks at the end and a first line return are not significant
fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && same(a, b)
}

struct Texts {
    target: String,
    baseline: String,
    source: String,
    index: String,
    sample: String,
    line: String,
    before: String,
    after: String,
}
fn report(t: &Texts, remote: bool) -> Report {
    let local = |n: usize, p: &str| Source::Local(n, PathBuf::from(p));
    let source = if remote {
        let u = match url::Url::parse(&format!("http://h.org/logs/{}", t.source)) {
            Ok(u) => u,
            Err(_) => fail("a url can't be parsed"),
        };
        Source::Remote(18, u)
    } else {
        local(6, &format!("/logs/{}", t.source))
    };
    let mut r = Report {
        created_at: SystemTime::UNIX_EPOCH + Duration::from_secs(1700000000),
        run_time: Duration::from_millis(1234),
        target: Content::Directory(local(0, &t.target)),
        baselines: vec![Content::File(local(0, &t.baseline)), Content::Directory(local(0, "other"))],
        log_reports: vec![],
        index_reports: Default::default(),
        index_errors: vec![],
        read_errors: vec![],
        total_line_count: 4321,
        total_anomaly_count: 3,
    };
    for i in 0..2 {
        r.log_reports.push(LogReport {
            test_time: Duration::from_millis(3),
            line_count: 100,
            byte_count: 70000,
            anomalies: vec![AnomalyContext {
                before: vec!["first".into(), if i == 0 { t.before.clone() } else { "second".into() }],
                anomaly: Anomaly { distance: 0.5, pos: 7, line: if i == 0 { t.line.clone() } else { "third".into() } },
                after: vec![if i == 0 { t.after.clone() } else { "fourth".into() }],
            }],
            source: if i == 0 { source.clone() } else { local(6, "/logs/second.log") },
            index_name: IndexName(if i == 0 { t.index.clone() } else { "two".into() }),
        });
    }
    r.index_reports.insert(
        IndexName(t.index.clone()),
        IndexReport { train_time: Duration::from_millis(7), sources: vec![local(0, &t.sample), local(0, "plain")] },
    );
    r
}
fn plain() -> Texts {
    let s = |s: &str| s.to_string();
    Texts {
        target: s("target"),
        baseline: s("base"),
        source: s("first.log"),
        index: s("one"),
        sample: s("sample"),
        line: s("line"),
        before: s("before"),
        after: s("after"),
    }
}
fn html(r: &Report) -> Vec<Ev> {
    match logreduce_report::render(r) {
        Ok(t) => {
            check(std::str::from_utf8(t.as_bytes()).is_ok(), "the report is not UTF-8");
            parse(t.as_bytes())
        }
        Err(_) => fail("a report can't be rendered"),
    }
}
/// a text of the page contains these bytes
fn shows(evs: &[Ev], t: &[u8]) -> bool {
    evs.iter().any(|e| match e {
        Ev::Text(x) => x.len() >= t.len() && (0..=x.len() - t.len()).any(|i| same(&x[i..i + t.len()], t)),
        _ => false,
    })
}
fn links(evs: &[Ev], t: &[u8]) -> bool {
    evs.iter().any(|e| match e {
        Ev::Open(n, a) => n == b"a" && a.iter().any(|(k, v)| k == b"href" && eq(v, t)),
        _ => false,
    })
}
/// the lines of the page: number and text
fn lines(evs: &[Ev]) -> Vec<Option<(usize, &[u8], bool)>> {
    let mut v = vec![];
    for (i, e) in evs.iter().enumerate() {
        match e {
            Ev::Open(n, _) if n == b"pre" => {
                if let Some(Ev::Text(t)) = evs.get(i + 1) {
                    let bar = match t.iter().position(|c| *c == b'|') {
                        Some(b) => b,
                        None => fail("a line has no number"),
                    };
                    let head = std::str::from_utf8(&t[..bar]).unwrap_or("");
                    let mut w = head.split_whitespace();
                    let (a, b) = (w.next(), w.next());
                    let nr = b.or(a).and_then(|n| n.parse::<usize>().ok());
                    let nr = match nr {
                        Some(n) => n,
                        None => fail("a line has no number"),
                    };
                    let text = if bar + 2 <= t.len() { &t[bar + 2..] } else { &t[bar + 1..] };
                    v.push(Some((nr, text, b.is_some())));
                } else {
                    fail("a line is empty")
                }
            }
            Ev::Open(n, _) if n == b"hr" => v.push(None),
            _ => {}
        }
    }
    v
}

/// the texts are shown as they are and never become markup
fn texts(n: usize) {
    let mut t = plain();
    let mut h = hard(n);
    let place = choose(8);
    let mut remote = false;
    match place {
        0 => t.target = h.clone(),
        1 => t.baseline = h.clone(),
        2 => {
            remote = flag();
            if remote {
                h = format!("x?{}", h);
            }
            t.source = h.clone()
        }
        3 => t.index = h.clone(),
        4 => t.sample = h.clone(),
        5 => t.line = h.clone(),
        6 => t.before = h.clone(),
        _ => t.after = h.clone(),
    }
    let r = report(&t, remote);
    let evs = html(&r);
    let mut p = plain();
    if remote {
        p.source = "x?y".into();
    }
    let want = html(&report(&p, remote));
    check(evs.iter().filter(|e| !matches!(e, Ev::Text(_))).count() == want.iter().filter(|e| !matches!(e, Ev::Text(_))).count(), "a text of the log changes the page");
    let mut a = evs.iter().filter(|e| !matches!(e, Ev::Text(_)));
    for y in want.iter().filter(|e| !matches!(e, Ev::Text(_))) {
        match (a.next(), y) {
            (Some(Ev::Open(m, ma)), Ev::Open(n, na)) => {
                check(eq(m, n) && ma.len() == na.len(), "a text of the log changes the page");
                for (k, l) in ma.iter().zip(na) {
                    check(eq(&k.0, &l.0), "a text of the log changes the page");
                }
            }
            (Some(Ev::Close(m)), Ev::Close(n)) => check(eq(m, n), "a text of the log changes the page"),
            _ => fail("a text of the log changes the page"),
        }
    }
    let rel = r.log_reports[0].source.get_relative().to_string();
    let full = r.log_reports[0].source.as_str().to_string();
    check(shows(&evs, rel.as_bytes()), "the name of a source is not shown as it is");
    check(shows(&evs, t.index.as_bytes()), "the name of an index is not shown as it is");
    check(shows(&evs, t.target.as_bytes()), "the target is not shown as it is");
    check(shows(&evs, t.baseline.as_bytes()), "the baselines are not shown as they are");
    check(links(&evs, full.as_bytes()), "a source is not linked");
    check(shows(&evs, t.sample.as_bytes()) && links(&evs, t.sample.as_bytes()), "a baseline sample is not linked");
    let l = lines(&evs);
    let w: [(usize, &str, bool); 8] = [
        (5, "first", false),
        (6, &t.before, false),
        (7, &t.line, true),
        (8, &t.after, false),
        (5, "first", false),
        (6, "second", false),
        (7, "third", true),
        (8, "fourth", false),
    ];
    check(l.len() == 8, "the lines of a source are not all shown");
    for (g, w) in l.iter().zip(w) {
        match g {
            Some((nr, text, main)) => {
                check(*nr == w.0, "a line is shown with the wrong number");
                check(*main == w.2, "an anomaly is not told from its context");
                let v = w.1.trim_end().as_bytes();
                check(eq(text, v), "a line is not shown as it is");
            }
            None => fail("a separator between adjacent lines"),
        }
    }
    cover("rendered");
}

/// every anomaly, in order, with its lines numbered
fn layout(n: usize) {
    let mut r = report(&plain(), false);
    r.total_anomaly_count = 71;
    r.log_reports.truncate(1);
    let mut pos = 0;
    let mut want: Vec<Option<(usize, String, bool)>> = vec![];
    let mut list = vec![];
    let mut sub = false;
    let mut end = 0;
    for i in 0..n {
        // the last anomaly in every way, the others in some
        let last = i == n - 1;
        let (nb, na) = if last { (choose(4), choose(2)) } else { (choose(2) * 2, choose(3)) };
        let gap = if last { range(0, 120) as usize } else { choose(2) };
        let inline = last && choose(4) == 3;
        pos += if inline {
            // the lines before are parts of the same physical line
            sub = true;
            1
        } else {
            gap + nb + 1
        };
        let before: Vec<String> = (0..nb).map(|k| format!("b{}{}", i, k)).collect();
        let after: Vec<String> = (0..na).map(|k| format!("a{}{}", i, k)).collect();
        if i > 0 && gap > 0 {
            want.push(None);
        }
        for (k, l) in before.iter().enumerate() {
            want.push(Some(((pos + k).saturating_sub(nb), l.clone(), false)));
        }
        want.push(Some((pos, format!("line{}", i), true)));
        for (k, l) in after.iter().enumerate() {
            want.push(Some((pos + 1 + k, l.clone(), false)));
        }
        list.push(AnomalyContext { before, anomaly: Anomaly { distance: if last { [0.31, 0.5, 1.0][choose(3)] } else { 0.7 }, pos, line: format!("line{}", i) }, after });
        pos += na;
        end = pos;
    }
    let _ = end;
    r.log_reports[0].anomalies = list;
    if flag() {
        r.index_reports.clear();
        r.total_line_count = 0;
    }
    let evs = html(&r);
    let got = lines(&evs);
    if sub {
        // only the anomalies are numbered for sure
        let g: Vec<_> = got.iter().flatten().collect();
        let w: Vec<_> = want.iter().flatten().collect();
        check(g.len() == w.len(), "the lines of a source are not all shown");
        for (g, w) in g.iter().zip(w) {
            check(g.1 == w.1.as_bytes() && g.2 == w.2, "the lines of a source are not shown in order");
            check(!g.2 || g.0 == w.0, "an anomaly is shown with the wrong number");
        }
        cover("parts of a line");
    } else {
        check(got.len() == want.len(), "lines or separators are missing");
        for (g, w) in got.iter().zip(&want) {
            match (g, w) {
                (None, None) => cover("separator"),
                (Some(g), Some(w)) => {
                    check(g.1 == w.1.as_bytes() && g.2 == w.2, "the lines of a source are not shown in order");
                    check(g.0 == w.0, "a line is shown with the wrong number");
                }
                (None, _) => fail("a separator between adjacent lines"),
                _ => fail("no separator between lines that are not adjacent"),
            }
        }
        cover("numbered");
    }
    check(shows(&evs, n.to_string().as_bytes()), "the number of anomalies is not shown");
    check(shows(&evs, r.total_line_count.to_string().as_bytes()) && shows(&evs, b"71"), "the totals are not shown");
}

/// every reported source, in order, whatever they have in common
fn sources(n: usize) {
    let local = |p: &str| Source::Local(6, PathBuf::from(p));
    let mut r = report(&plain(), false);
    r.log_reports.clear();
    r.total_anomaly_count = 5;
    let names = ["/logs/job.log", "/logs/sub/job.log", "/logs/other.txt"];
    let groups = ["one", "two", "unknown"];
    r.index_reports.clear();
    let samples: [&[&str]; 3] = [&["s1", "s2"], &["s3"], &[]];
    let known = choose(3);
    for g in 0..known {
        r.index_reports.insert(
            IndexName(groups[g].into()),
            IndexReport { train_time: Duration::from_millis(7), sources: samples[g].iter().map(|s| Source::Local(0, PathBuf::from(s))).collect() },
        );
    }
    let mut spec = vec![];
    let same = flag();
    for i in 0..n {
        let (name, group, count) = (choose(3), choose(3), choose(3));
        let mut list = vec![];
        for k in 0..count {
            let text = if same { format!("same{}", k) } else { format!("line{}-{}", i, k) };
            list.push(AnomalyContext { before: vec![], anomaly: Anomaly { distance: [0.4, 0.9][k % 2], pos: 10 + 20 * k, line: text }, after: vec![] });
        }
        spec.push((name, group, list.iter().map(|a| (a.anomaly.pos, a.anomaly.line.clone())).collect::<Vec<_>>()));
        r.log_reports.push(LogReport {
            test_time: Duration::from_millis(3),
            line_count: 100,
            byte_count: 70000,
            anomalies: list,
            source: local(names[name]),
            index_name: IndexName(groups[group].into()),
        });
    }
    let evs = html(&r);
    // the names of the sources, in order
    let mut at = vec![];
    for (i, e) in evs.iter().enumerate() {
        if let Ev::Text(t) = e {
            if names.iter().any(|n| t == &n.as_bytes()[6..]) {
                at.push(i);
            }
        }
    }
    check(at.len() == n, "the sources are not all shown");
    at.push(evs.len());
    for (i, (name, group, list)) in spec.iter().enumerate() {
        let part = &evs[at[i]..at[i + 1]];
        check(matches!(&part[0], Ev::Text(t) if t == &names[*name].as_bytes()[6..]), "the sources are not in order");
        check(links(part, names[*name].as_bytes()), "a source is not linked");
        check(shows(part, groups[*group].as_bytes()), "the name of an index is not shown as it is");
        for g in 0..known {
            for s in samples[g] {
                check(links(part, s.as_bytes()) == (g == *group), "the samples of a source are not those of its index");
            }
        }
        let count = list.len().to_string();
        check(part.iter().any(|e| matches!(e, Ev::Text(t) if t == count.as_bytes())), "the number of anomalies is not shown");
        let got = lines(part);
        let mut want = vec![];
        for (k, l) in list.iter().enumerate() {
            if k > 0 {
                want.push(None);
            }
            want.push(Some(l));
        }
        check(got.len() == want.len(), "lines or separators are missing");
        for (g, w) in got.iter().zip(want) {
            match (g, w) {
                (None, None) => {}
                (Some(g), Some(w)) => check(g.0 == w.0 && g.1 == w.1.as_bytes() && g.2, "the lines of a source are not shown in order"),
                _ => fail("a separator is missing or misplaced"),
            }
        }
    }
    if n > 1 && spec[0].1 == spec[1].1 {
        cover("two sources of a group");
    }
}

/// many anomalies far apart
fn large(n: usize) {
    let mut r = report(&plain(), false);
    r.log_reports.truncate(1);
    let step = [1, 9, 70001][choose(3)];
    let start = [0, 99990, 123456789][choose(3)];
    let mut list = vec![];
    for k in 0..n {
        list.push(AnomalyContext { before: vec![], anomaly: Anomaly { distance: 0.5, pos: start + k * step, line: format!("line {} end", k) }, after: vec![] });
    }
    r.log_reports[0].anomalies = list;
    r.total_anomaly_count = n;
    let evs = html(&r);
    let got = lines(&evs);
    let mut k = 0;
    let mut sep = 0;
    for g in &got {
        match g {
            Some((nr, text, main)) => {
                check(*nr == start + k * step, "a line is shown with the wrong number");
                check(*main && *text == format!("line {} end", k).as_bytes(), "the lines of a source are not shown in order");
                check(sep == if k > 0 && step > 1 { 1 } else { 0 }, "a separator is missing or misplaced");
                k += 1;
                sep = 0;
            }
            None => sep += 1,
        }
    }
    check(k == n && sep == 0, "the lines of a source are not all shown");
    check(shows(&evs, n.to_string().as_bytes()), "the number of anomalies is not shown");
    cover("many");
}

fn run(arg: u64) {
    symos::init();
    match arg {
        1 => texts(2),
        11 => texts(3),
        2 => layout(2),
        12 => layout(3),
        4 => large(120),
        14 => large(1500),
        3 => sources(2),
        13 => sources(3),
        _ => fail("no such case"),
    }
}
entry!(run);
