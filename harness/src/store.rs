//! C15: saving and loading models and reports.
use logreduce_model::{hashing_index, Content, IndexName, IndexReport, LogReport, Model, OutputMode, Report, Source};
use logreduce_model::{Anomaly, AnomalyContext};
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};
use symos::Op;
use symrt::*;

const LET: &[u8] = b"ghijklmnop";
static mut WRITES: usize = 0;
static mut FAIL_AT: usize = usize::MAX;
static mut HOW: usize = 0;

fn faults(op: Op, p: &[u8], n: usize) -> Result<usize, i32> {
    if op == Op::Write && p.starts_with(b"/vfs/out") {
        unsafe {
            WRITES += 1;
            if WRITES > FAIL_AT {
                return match HOW {
                    0 => Err(symos::ENOSPC),
                    // a short write before the device is full
                    _ if WRITES == FAIL_AT + 1 && n > 1 => Ok(n / 2),
                    _ => Err(symos::EIO),
                };
            }
        }
    }
    if op == Op::Create && p.starts_with(b"/vfs/out/denied") {
        return Err(symos::EACCES);
    }
    Ok(n)
}

fn train() -> (Model, Vec<u8>) {
    let mut known = over(4, LET);
    known.extend_from_slice(b" service is running\n");
    symos::file(b"/vfs/b/alpha.log", &known);
    symos::file(b"/vfs/b/beta.log", b"other service stopped\n");
    let mut t = known.clone();
    t.extend_from_slice(b"unexpected crash detected\n");
    t.extend_from_slice(&known);
    symos::file(b"/vfs/t/alpha.log", &t);
    match Model::train(OutputMode::Quiet, vec![crate::reports::dir("/vfs/b")], hashing_index::new) {
        Ok(m) => (m, known),
        Err(_) => fail("the model can't be trained"),
    }
}
fn report(m: &Model) -> Report {
    match m.report(OutputMode::Quiet, crate::reports::dir("/vfs/t")) {
        Ok(mut r) => {
            // the groups are in any order
            r.log_reports.sort_by(|a, b| a.source.as_str().cmp(b.source.as_str()));
            r.index_errors.sort_by_key(|g| g.first().map(|s| s.as_str().to_string()));
            r.read_errors.sort_by_key(|(s, _)| s.as_str().to_string());
            r
        }
        Err(_) => fail("the report can't be made"),
    }
}
/// a build, whose texts and numbers are arbitrary
fn build(name: String) -> Content {
    let end = ["2023-01-05T06:07:08Z", "1999-12-31T23:59:59.123456789Z"][choose(2)];
    let t = format!(
        "{{\"Zuul\":{{\"api\":\"https://zuul.org/api/tenant/x/\",\"uuid\":\"5bae5607ae964331bb5878aec0777637\",\"job_name\":\"j\",\"project\":\"a/b\",\"branch\":\"\",\"result\":\"SUCCESS\",\"pipeline\":\"gate\",\"log_url\":\"https://logs.org/x/y/\",\"ref_url\":\"https://review.org/1?a=b#c\",\"end_time\":\"{}\",\"change\":5000000000}}}}",
        end
    );
    match serde_json::from_str(&t) {
        Ok(Content::Zuul(mut b)) => {
            b.job_name = name;
            b.change -= range(0, 255) as u64;
            Content::Zuul(b)
        }
        _ => fail("a build can't be decoded"),
    }
}
/// many indexes, many lines
fn large(lines: usize, groups: usize) {
    let word = |c: char, n: usize| {
        let mut w = String::from(c);
        let mut n = n + 300;
        while n > 0 {
            w.push((b'g' + (n % 16) as u8) as char);
            n /= 16;
        }
        w
    };
    let mut text = vec![];
    for i in 0..lines {
        text.extend_from_slice(format!("{} {}\n", word('r', i), word('s', i)).as_bytes());
    }
    let mut known = over(2, LET);
    known.extend_from_slice(b" service is running\n");
    text.extend_from_slice(&known);
    symos::file(b"/vfs/b/alpha.log", &text);
    // an index may be empty
    symos::file(b"/vfs/b/empty.log", b"");
    symos::file(b"/vfs/t/empty.log", b"unexpected stop detected\n");
    for g in 0..groups {
        symos::file(format!("/vfs/b/{}.log", word('z', g)).as_bytes(), b"other service stopped\n");
        symos::file(format!("/vfs/t/{}.log", word('z', g)).as_bytes(), b"other service stopped\nunexpected crash detected\n");
    }
    let mut t = vec![];
    for i in [0, lines / 3, lines * 2 / 3, lines - 1] {
        t.extend_from_slice(format!("{} {}\n", word('r', i), word('s', i)).as_bytes());
    }
    t.extend_from_slice(&known);
    t.extend_from_slice(b"unexpected crash detected\n");
    symos::file(b"/vfs/t/alpha.log", &t);
    let m = match Model::train(OutputMode::Quiet, vec![crate::reports::dir("/vfs/b")], hashing_index::new) {
        Ok(m) => m,
        Err(_) => fail("the model can't be trained"),
    };
    let want = report(&m);
    check(want.total_anomaly_count == groups + 2, "the report is wrong");
    check(m.save(Path::new("/vfs/out/x")).is_ok(), "saving fails");
    match Model::load(Path::new("/vfs/out/x")) {
        Ok(m) => compare(&want, &report(&m)),
        Err(_) => fail("what was saved can't be loaded"),
    }
    check(want.save(Path::new("/vfs/out/y")).is_ok(), "saving fails");
    match Report::load(Path::new("/vfs/out/y")) {
        Ok(r) => compare(&want, &r),
        Err(_) => fail("what was saved can't be loaded"),
    }
    cover("large");
}
/// the reports are the same but for the time they took
fn compare(a: &Report, b: &Report) {
    check(a.target == b.target && a.baselines == b.baselines, "another target or baseline");
    check(a.total_line_count == b.total_line_count && a.total_anomaly_count == b.total_anomaly_count, "other totals");
    check(a.index_errors == b.index_errors && a.read_errors == b.read_errors, "other errors");
    check(a.log_reports.len() == b.log_reports.len(), "other sources");
    for (x, y) in a.log_reports.iter().zip(&b.log_reports) {
        check(x.source == y.source && x.index_name == y.index_name, "another source");
        check(x.line_count == y.line_count && x.byte_count == y.byte_count, "other counts");
        check(x.anomalies.len() == y.anomalies.len(), "other anomalies");
        for (p, q) in x.anomalies.iter().zip(&y.anomalies) {
            check(p.anomaly.pos == q.anomaly.pos && p.anomaly.distance == q.anomaly.distance, "another anomaly");
            check(same(p.anomaly.line.as_bytes(), q.anomaly.line.as_bytes()), "another line");
            for (u, v) in [(&p.before, &q.before), (&p.after, &q.after)] {
                check(u.len() == v.len(), "another context");
                for (l, r) in u.iter().zip(v) {
                    check(same(l.as_bytes(), r.as_bytes()), "another context line");
                }
            }
        }
    }
    check(a.index_reports.len() == b.index_reports.len(), "other indexes");
    for (n, i) in &a.index_reports {
        match b.index_reports.get(n) {
            Some(j) => check(i.sources == j.sources && i.train_time == j.train_time, "another index"),
            None => fail("an index is missing"),
        }
    }
}

fn local(p: &str) -> Source {
    Source::Local(6, PathBuf::from(p))
}
fn sample() -> Report {
    let text = |n: usize| {
        let mut v = over(n, b"ab <&\"'\\");
        v.extend_from_slice("caf\u{e9}".as_bytes());
        unsafe { String::from_utf8_unchecked(v) }
    };
    let mut r = Report {
        created_at: SystemTime::UNIX_EPOCH + Duration::from_secs(range(0, 255) as u64),
        run_time: Duration::from_millis(range(0, 255) as u64),
        target: Content::File(local("/vfs/t/alpha.log")),
        baselines: vec![Content::Directory(local("/vfs/b")), Content::File(Source::Remote(9, url::Url::parse("http://h.org/x.log").unwrap())), build(text(1))],
        log_reports: vec![],
        index_reports: Default::default(),
        index_errors: vec![vec![local("/vfs/t/gamma.log")], vec![]],
        read_errors: vec![(local("/vfs/t/beta.log"), text(2))],
        total_line_count: range(0, 255) as usize,
        total_anomaly_count: 2,
    };
    for i in 0..2 {
        r.log_reports.push(LogReport {
            test_time: Duration::from_millis(3),
            line_count: 100 + i,
            byte_count: 70000,
            anomalies: vec![AnomalyContext {
                before: vec![text(1), String::new()],
                anomaly: Anomaly { distance: 0.5, pos: 3 + i, line: text(3) },
                after: vec![text(1)],
            }],
            source: local("/vfs/t/alpha.log"),
            index_name: IndexName("alpha.log".into()),
        });
    }
    r.index_reports.insert(IndexName("alpha.log".into()), IndexReport { train_time: Duration::from_millis(7), sources: vec![local("/vfs/b/alpha.log")] });
    r
}

enum Thing {
    M(Model),
    R(Report),
}
fn save(t: &Thing, p: &str) -> bool {
    match t {
        Thing::M(m) => m.save(Path::new(p)).is_ok(),
        Thing::R(r) => r.save(Path::new(p)).is_ok(),
    }
}
/// what is in the file; None when it is refused
fn load(t: &Thing, p: &str) -> Option<Report> {
    match t {
        Thing::M(_) => Model::load(Path::new(p)).ok().map(|m| report(&m)),
        Thing::R(_) => Report::load(Path::new(p)).ok(),
    }
}
fn thing() -> (Thing, Report) {
    if flag() {
        let (m, _) = train();
        let r = report(&m);
        (Thing::M(m), r)
    } else {
        let r = sample();
        let p = "/vfs/mem/r";
        symos::mkdirs("/vfs/mem");
        // a report is not Clone: keep a copy through the file it was loaded from
        check(r.save(Path::new(p)).is_ok(), "a report can't be saved");
        let c = match Report::load(Path::new(p)) {
            Ok(c) => c,
            Err(_) => fail("a saved report can't be loaded"),
        };
        compare(&r, &c);
        check(r.created_at == c.created_at && r.run_time == c.run_time, "another date");
        (Thing::R(r), c)
    }
}

pub fn run(arg: u64) {
    symos::mkdirs("/vfs/out");
    match arg {
        3 => return large(600, 30),
        13 => return large(9300, 60),
        _ => (),
    }
    symos::set_fault(Some(faults));
    let (t, want) = thing();
    match arg {
        0 => {
            // saving over a longer file as well
            if flag() {
                symos::file(b"/vfs/out/x", &[b'x'; 4000]);
            }
            check(save(&t, "/vfs/out/x"), "saving fails");
            match load(&t, "/vfs/out/x") {
                Some(r) => compare(&want, &r),
                None => fail("what was saved can't be loaded"),
            }
            cover("loaded");
            check(!save(&t, "/vfs/out/denied"), "a file that can't be created is not reported");
            check(!save(&t, "/vfs/missing/x"), "a file that can't be created is not reported");
            check(load(&t, "/vfs/out/missing").is_none(), "a missing file is loaded");
            symos::file(b"/vfs/out/other", b"this is not a model");
            check(load(&t, "/vfs/out/other").is_none(), "a foreign file is loaded");
            check(symos::open_files() == 0, "a file is left open");
        }
        1 => {
            // any write fails
            check(save(&t, "/vfs/out/count"), "saving fails");
            unsafe {
                let n = WRITES;
                WRITES = 0;
                HOW = choose(2);
                FAIL_AT = n - 1 - choose(n);
            }
            let ok = save(&t, "/vfs/out/x");
            unsafe { FAIL_AT = usize::MAX };
            if ok {
                match load(&t, "/vfs/out/x") {
                    Some(r) => compare(&want, &r),
                    None => fail("a failed save is reported as a success"),
                }
                fail("a failed save is reported as a success");
            }
            cover("failed");
            if let Some(r) = load(&t, "/vfs/out/x") {
                compare(&want, &r);
            }
        }
        2 => {
            // a file cut anywhere is refused, or complete
            check(save(&t, "/vfs/out/x"), "saving fails");
            let d = symos::read_file(b"/vfs/out/x").unwrap();
            let cut = if d.len() > 200 && flag() { choose(d.len() / 128) * 128 } else { choose(128) } + 1;
            symos::file(b"/vfs/out/x", &d[..d.len().saturating_sub(cut)]);
            match load(&t, "/vfs/out/x") {
                Some(r) => compare(&want, &r),
                None => cover("refused"),
            }
        }
        _ => fail("no such case"),
    }
}
