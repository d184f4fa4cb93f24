//! C14: what a report accounts for.
use logreduce_model::{hashing_index, Content, IndexName, Model, OutputMode, Report, Source};
use std::path::PathBuf;
use symos::Op;
use symrt::*;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Clean,
    New,
    NoOpen,
    Broken,
    Binary,
    Empty,
}
use St::*;
struct File {
    path: String,
    st: St,
    group: usize,
    line: Vec<u8>,
}
static mut BAD: Vec<(Vec<u8>, St)> = Vec::new();
#[allow(static_mut_refs)]
fn faults(op: Op, p: &[u8], n: usize) -> Result<usize, i32> {
    for (q, s) in unsafe { &BAD } {
        if &q[..] == p {
            if *s == NoOpen && op == Op::Open {
                return Err(symos::EACCES);
            }
            if *s == Broken && op == Op::Read && n == 0 {
                return Err(symos::EIO);
            }
        }
    }
    Ok(n)
}
const KNOWN: &str = "starting service worker\n";
pub fn dir(p: &str) -> Content {
    match Content::from_path(&PathBuf::from(p)) {
        Ok(c) => c,
        Err(_) => fail("a path that exists is refused"),
    }
}
fn path(s: &Source) -> String {
    s.as_str().to_string()
}

fn accounting(n: usize, indexes: usize) {
    symos::file(b"/vfs/b/alpha.log", KNOWN.as_bytes());
    if indexes > 1 {
        symos::file(b"/vfs/b/beta.log", KNOWN.as_bytes());
    }
    let mut files = vec![];
    for i in 0..n {
        let group = if i == 0 { 0 } else { choose(3) };
        let st = [Clean, New, NoOpen, Broken, Binary, Empty][choose(6)];
        let path = match group {
            0 => format!("/vfs/t/alpha.log{}", ["", ".1", ".2.gz"][i]),
            1 => format!("/vfs/t/beta.log{}", ["", ".1", ".2"][i]),
            _ => format!("/vfs/t/gamma{}.log", i),
        };
        let mut line = b"? crashed unexpectedly".to_vec();
        // every file has its own anomaly
        line[0] = b'p' + i as u8;
        line.splice(1..1, over(4, b"ghijklmnop"));
        let mut data = match st {
            Empty => vec![],
            _ => KNOWN.as_bytes().to_vec(),
        };
        if matches!(st, New | Broken | Binary) {
            data.extend_from_slice(&line);
            data.push(b'\n');
        }
        if st == Binary {
            data.extend_from_slice(b"more \xff\xfe bytes\nand a last line\n");
        }
        if path.ends_with(".gz") {
            data = crate::sources::gz(&data);
        }
        symos::file(path.as_bytes(), &data);
        #[allow(static_mut_refs)]
        unsafe {
            BAD.push((path.clone().into_bytes(), st))
        };
        files.push(File { path, st, group, line });
    }
    let model = match Model::train(OutputMode::Quiet, vec![dir("/vfs/b")], hashing_index::new) {
        Ok(m) => m,
        Err(_) => fail("the model can't be trained"),
    };
    symos::set_fault(Some(faults));
    let r = match model.report(OutputMode::Quiet, dir("/vfs/t")) {
        Ok(r) => r,
        Err(_) => fail("one bad source prevents the report"),
    };
    let mut lines = 0;
    let mut anomalies = 0;
    let mut exact = true;
    for f in &files {
        let indexed = indexes == 1 || f.group < 2;
        let logs: Vec<_> = r.log_reports.iter().filter(|l| path(&l.source) == f.path).collect();
        let errs = r.read_errors.iter().filter(|(s, _)| path(s) == f.path).count();
        let noidx = r.index_errors.iter().flatten().filter(|s| path(s) == f.path).count();
        if !indexed {
            check(noidx == 1, "a source without a baseline is not reported as such");
            check(logs.is_empty() && errs == 0, "a source without a baseline is processed");
            cover("without a baseline");
            continue;
        }
        check(noidx == 0, "a source with a baseline is reported as having none");
        let failed = matches!(f.st, NoOpen | Broken | Binary);
        check(errs >= failed as usize, "a source that can't be read is not reported");
        check(errs <= failed as usize, "a read error is reported more than once, or for a readable source");
        let has = matches!(f.st, New | Broken | Binary);
        check(logs.len() >= has as usize, "the anomalies of a source are not reported");
        check(logs.len() <= has as usize, "a source without anomaly has a report");
        if f.st == Binary {
            exact = false;
        }
        lines += match f.st {
            Clean => 1,
            New | Broken => 2,
            _ => 0,
        };
        if has {
            anomalies += 1;
            let l = logs[0];
            check(l.anomalies.len() == 1, "a source does not have its own anomalies");
            let a = &l.anomalies[0];
            check(same(a.anomaly.line.as_bytes(), &f.line), "an anomaly is attributed to the wrong source");
            check(a.anomaly.pos == 2, "an anomaly carries the wrong line number");
            check(a.before.len() == 1 && same(a.before[0].as_bytes(), KNOWN.trim_end().as_bytes()), "an anomaly has the wrong context");
            check(l.index_name == IndexName::from_source(&l.source), "a source is attributed to the wrong index");
            check(r.index_reports.contains_key(&l.index_name), "the baseline of an anomaly is not in the report");
            if f.st != Binary {
                check(l.line_count == 2, "the line count of a source is wrong");
                check(l.byte_count == KNOWN.len() - 1 + f.line.len(), "the byte count of a source is wrong");
            }
            cover("with an anomaly");
        }
        if failed {
            cover("failed");
        }
    }
    check(r.total_anomaly_count == anomalies, "the total of anomalies is wrong");
    if exact {
        check(r.total_line_count == lines, "the total of lines is wrong");
    }
    check(r.log_reports.len() <= anomalies, "something that is not a source is reported");
    check(r.baselines.len() == 1 && r.baselines[0] == dir("/vfs/b"), "the report has the wrong baselines");
    check(r.target == dir("/vfs/t"), "the report has the wrong target");
}

/// every source of every baseline counts
fn baselines(three: bool) {
    let w = |c: u8| {
        let mut l = vec![c];
        l.extend_from_slice(&over(3, b"ghijklmnop"));
        l.extend_from_slice(b" was started\n");
        l
    };
    let (a, b, c) = (w(b'p'), w(b'q'), w(b'r'));
    symos::file(b"/vfs/b1/alpha.log", &a);
    symos::file(b"/vfs/b1/alpha.log.1", &b);
    // the second baseline may have files of the same names
    let same_name = flag();
    symos::file(if same_name { b"/vfs/b2/alpha.log" } else { b"/vfs/b2/alpha.log.2" }, &c);
    if three {
        symos::file(b"/vfs/b2/beta.log", b"other\n");
    }
    let mut t = vec![];
    for x in [&c, &b, &a] {
        t.extend_from_slice(x);
    }
    symos::file(b"/vfs/t/alpha.log", &t);
    // one of them may be unreadable: only its lines are unknown
    let bad = choose(4);
    if bad < 3 {
        let p = ["/vfs/b1/alpha.log", "/vfs/b1/alpha.log.1", if same_name { "/vfs/b2/alpha.log" } else { "/vfs/b2/alpha.log.2" }][bad];
        #[allow(static_mut_refs)]
        unsafe {
            BAD.push((p.as_bytes().to_vec(), [NoOpen, Broken][choose(2)]))
        };
        symos::set_fault(Some(faults));
    }
    let m = Model::train(OutputMode::Quiet, vec![dir("/vfs/b1"), dir("/vfs/b2")], hashing_index::new);
    let m = match m {
        Ok(m) => m,
        Err(_) => {
            // a source that can't even be opened may prevent the training
            #[allow(static_mut_refs)]
            let refused = bad < 3 && unsafe { BAD[0].1 == NoOpen };
            check(refused, "the model can't be trained");
            return;
        }
    };
    let r: Report = match m.report(OutputMode::Quiet, dir("/vfs/t")) {
        Ok(r) => r,
        Err(_) => fail("the report can't be made"),
    };
    if bad < 3 {
        let lost = [&a, &b, &c][bad];
        let mut n = 0;
        for l in &r.log_reports {
            for x in &l.anomalies {
                check(same(x.anomaly.line.as_bytes(), &lost[..lost.len() - 1]), "a line of a readable baseline source is reported as an anomaly");
                n += 1;
            }
        }
        check(n <= 1 && r.total_anomaly_count == n, "the total of anomalies is wrong");
        check(r.total_line_count == 3 && r.read_errors.is_empty() && r.index_errors.is_empty(), "an unreadable baseline source prevents the report");
        cover("an unreadable baseline");
        return;
    }
    check(r.log_reports.is_empty(), "a line of a baseline source is reported as an anomaly");
    check(r.read_errors.is_empty() && r.index_errors.is_empty(), "an error is reported for readable sources");
    check(r.total_line_count == 3, "the total of lines is wrong");
    check(r.baselines.len() == 2, "the report has the wrong baselines");
    cover("known");
}

/// a line repeated in the sources of a group is reported once; in another group it is reported again
fn repeated() {
    symos::file(b"/vfs/b/alpha.log", KNOWN.as_bytes());
    symos::file(b"/vfs/b/beta.log", KNOWN.as_bytes());
    let mut l = over(4, b"ghijklmnop");
    l.extend_from_slice(b" crashed unexpectedly\n");
    symos::file(b"/vfs/t/alpha.log", &l);
    symos::file(b"/vfs/t/alpha.log.1", &l);
    symos::file(b"/vfs/t/beta.log", &l);
    let m = match Model::train(OutputMode::Quiet, vec![dir("/vfs/b")], hashing_index::new) {
        Ok(m) => m,
        Err(_) => fail("the model can't be trained"),
    };
    let r = match m.report(OutputMode::Quiet, dir("/vfs/t")) {
        Ok(r) => r,
        Err(_) => fail("the report can't be made"),
    };
    let of = |n: &str| r.log_reports.iter().filter(|l| l.index_name.0 == n).count();
    check(of("alpha.log") == 1, "a line repeated in a group is not reported exactly once");
    check(of("beta.log") == 1, "a line seen in another group is not reported");
    check(r.index_reports.len() == 2, "the baselines of the anomalies are not in the report");
    cover("repeated");
}

/// many sources, many lines, long lines
fn bulk(groups: usize, each: usize, lines: usize, long: usize) {
    let word = |n: usize| {
        let mut w = String::new();
        let mut n = n + 300;
        while n > 0 {
            w.push((b'g' + (n % 16) as u8) as char);
            n /= 16;
        }
        w
    };
    let sym = over(3, b"ghijklmnop");
    let pad = |c: &str, i: usize| {
        let mut s = String::new();
        while s.len() < long {
            s.push_str(&format!(" {}{}{}", c, word(s.len()), word(i)));
        }
        s
    };
    for g in 0..groups {
        let mut t = KNOWN.to_string();
        if long > 0 {
            t.push_str(&format!("known{}\n", pad("r", 0)));
        }
        symos::file(format!("/vfs/b/z{}.log", word(g)).as_bytes(), t.as_bytes());
    }
    let mut want = vec![];
    for g in 0..groups {
        for k in 0..each {
            let p = format!("/vfs/t/z{}.log{}", word(g), if k == 0 { String::new() } else { format!(".{}", k) });
            let mut data = KNOWN.as_bytes().to_vec();
            if long > 0 {
                data.extend_from_slice(format!("known{}\n", pad("r", 0)).as_bytes());
            }
            let mut own = vec![];
            for i in 0..lines {
                let l = if long > 0 {
                    // the new words come late
                    let mut l = format!("known{} ", pad("r", 0)).into_bytes();
                    l.extend_from_slice(pad("s", g * 1000 + k * 100 + i).as_bytes());
                    l.extend_from_slice(pad("t", g * 1000 + k * 100 + i).as_bytes());
                    l.extend_from_slice(&sym);
                    l
                } else {
                    let mut l = format!("x{}y{}z{} ", word(g), word(k), word(i)).into_bytes();
                    l.extend_from_slice(format!("t{}u{}v{} ", word(g), word(k), word(i)).as_bytes());
                    l.extend_from_slice(&sym);
                    l
                };
                data.extend_from_slice(&l);
                data.push(b'\n');
                own.push(l);
            }
            data.extend_from_slice(KNOWN.as_bytes());
            symos::file(p.as_bytes(), &data);
            want.push((p, own, data));
        }
    }
    let m = match Model::train(OutputMode::Quiet, vec![dir("/vfs/b")], hashing_index::new) {
        Ok(m) => m,
        Err(_) => fail("the model can't be trained"),
    };
    let r = match m.report(OutputMode::Quiet, dir("/vfs/t")) {
        Ok(r) => r,
        Err(_) => fail("the report can't be made"),
    };
    check(r.index_errors.is_empty() && r.read_errors.is_empty(), "an error is reported for readable sources");
    check(r.log_reports.len() == want.len(), "the report has not every source with anomalies");
    let (mut lines, mut anomalies) = (0, 0);
    for (p, own, data) in &want {
        let l = match r.log_reports.iter().find(|l| &path(&l.source) == p) {
            Some(l) => l,
            None => fail("the anomalies of a source are not reported"),
        };
        check(l.anomalies.len() == own.len(), "a source does not have its own anomalies");
        let first = if long > 0 { 3 } else { 2 };
        for (i, (a, o)) in l.anomalies.iter().zip(own).enumerate() {
            check(same(a.anomaly.line.as_bytes(), o), "an anomaly is attributed to the wrong source");
            check(a.anomaly.pos == first + i, "an anomaly carries the wrong line number");
        }
        let n = data.iter().filter(|c| **c == b'\n').count();
        check(l.line_count == n, "the line count of a source is wrong");
        check(l.byte_count == data.len() - n, "the byte count of a source is wrong");
        lines += n;
        anomalies += own.len();
        let i = match r.index_reports.get(&l.index_name) {
            Some(i) => i,
            None => fail("the baseline of an anomaly is not in the report"),
        };
        check(i.sources.len() == 1 && path(&i.sources[0]) == p.replace("/t/", "/b/").split(".log").next().unwrap().to_string() + ".log", "the baseline of an index is wrong");
    }
    check(r.total_anomaly_count == anomalies, "the total of anomalies is wrong");
    check(r.total_line_count == lines, "the total of lines is wrong");
    check(r.index_reports.len() == groups, "the report has not every baseline");
    cover("bulk");
}

/// the rotated and compressed copies of a file are read like the file
fn copies(ext: &str) {
    const SUFFIX: [&str; 5] = ["", ".1", ".gz", ".2.gz", "-20231114"];
    let w = template("????", b"ghijklmnop");
    let text = format!("{{\"name\": \"{} worker\", \"state\": [\"running well\", \"since yesterday\"]}}\nlast words here\n", w);
    let write = |dir: &str, i: usize, t: &str| {
        let p = format!("/vfs/{}/alpha{}{}", dir, ext, SUFFIX[i]);
        let t = t.as_bytes();
        symos::file(p.as_bytes(), &if p.ends_with(".gz") { crate::sources::gz(t) } else { t.to_vec() });
    };
    let (b, other, t) = (choose(5), choose(5), choose(5));
    if other != b {
        write("b", other, "{\"other\": \"sample value\"}\n");
    }
    write("b", b, &text);
    write("t", t, &text);
    // so that it is not the only index
    symos::file(b"/vfs/b/beta.log", KNOWN.as_bytes());
    let m = match Model::train(OutputMode::Quiet, vec![dir("/vfs/b")], hashing_index::new) {
        Ok(m) => m,
        Err(_) => fail("the model can't be trained"),
    };
    let r = match m.report(OutputMode::Quiet, dir("/vfs/t")) {
        Ok(r) => r,
        Err(_) => fail("the report can't be made"),
    };
    check(r.index_errors.is_empty() && r.read_errors.is_empty(), "a copy of a file is not compared with it");
    check(r.log_reports.is_empty(), "a line of a baseline is reported in a copy of the same file");
    cover("copy");
}

pub fn run(arg: u64) {
    match arg {
        4 => copies([".json", ".log"][choose(2)]),
        0 => accounting(2, 2),
        1 => accounting(2, 1),
        10 => accounting(3, 2),
        2 => baselines(flag()),
        3 => repeated(),
        5 => bulk(2, 3, 30, 0),
        6 => bulk(20, 1, 2, 0),
        7 => bulk(1, 1, 2, 700 + 600 * choose(2)),
        15 => bulk(40, 3, 40, 0),
        17 => bulk(1, 2, 12, 1950),
        _ => fail("no such case"),
    }
}
