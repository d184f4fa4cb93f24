//! C22: the same logs give the same report wherever they are.
use crate::reports::dir;
use logreduce_model::{hashing_index, Content, Input, Model, OutputMode, Report, Source};
use reqwest::{Method, Reply};
use symos::Op;
use symrt::*;
use url::Url;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Fine,
    NoOpen,
    Broken,
}
use St::*;
struct File {
    // b/alpha.log
    path: String,
    data: Vec<u8>,
    st: St,
}
static mut FILES: Vec<File> = Vec::new();
static mut API: Vec<(String, Vec<u8>)> = Vec::new();
static mut FETCHED: Vec<String> = Vec::new();
static mut DOWN: bool = false;
/// how the server cuts what it sends
static mut PIECE: usize = 1000;
const SITE: &str = "http://logs.org/site/";

#[allow(static_mut_refs)]
fn serve(m: Method, url: &Url) -> Option<Reply> {
    unsafe {
        if DOWN {
            return None;
        }
        for (u, body) in &API {
            if url.as_str() == u || (u.ends_with('*') && url.as_str().starts_with(&u[..u.len() - 1])) {
                return Some(Reply { url: url.clone(), status: 200, body: vec![Some(body.clone())] });
            }
        }
        // a server adds the last slash of a directory
        let url = &match url.as_str().strip_prefix(SITE) {
            Some("b") | Some("t") => Url::parse(&format!("{}/", url)).unwrap(),
            _ => url.clone(),
        };
        let reply = |status, body| Some(Reply { url: url.clone(), status, body });
        let path = match url.as_str().strip_prefix(SITE) {
            Some(p) => p,
            None => return reply(404, vec![]),
        };
        if m == Method::Head {
            return reply(200, vec![]);
        }
        for f in &FILES {
            if f.path == path {
                FETCHED.push(path.to_string());
                if f.st == NoOpen {
                    return reply(404, vec![Some(b"<html>not found</html>".to_vec())]);
                }
                let mut body: Vec<Option<Vec<u8>>> = f.data.chunks(PIECE).map(|c| Some(c.to_vec())).collect();
                if f.st == Broken {
                    body.push(None);
                }
                return reply(200, body);
            }
        }
        let mut page = String::from("<html><body><a href=\"?C=N;O=D\">Name</a><a href=\"../\">Parent</a>\n");
        let mut seen: Vec<&str> = vec![];
        if !path.ends_with('/') {
            return reply(404, vec![]);
        }
        for f in &FILES {
            if let Some(rest) = f.path.strip_prefix(path) {
                let entry = match rest.find('/') {
                    Some(i) => &rest[..i + 1],
                    None => rest,
                };
                if !seen.contains(&entry) {
                    seen.push(entry);
                    page.push_str(&format!("<a href=\"{}\">{}</a> 2023-01-01\n", entry, entry));
                }
            }
        }
        match seen.is_empty() {
            true => reply(404, vec![]),
            false => reply(200, vec![Some(page.into_bytes())]),
        }
    }
}
#[allow(static_mut_refs)]
fn faults(op: Op, p: &[u8], n: usize) -> Result<usize, i32> {
    for f in unsafe { &FILES } {
        if f.st != Fine && p.len() == f.path.len() + 7 && p.starts_with(b"/vfs/l/") && &p[7..] == f.path.as_bytes() {
            if f.st == NoOpen && op == Op::Open {
                return Err(symos::EACCES);
            }
            if f.st == Broken && op == Op::Read && n == 0 {
                return Err(symos::EIO);
            }
        }
    }
    Ok(n)
}
#[allow(static_mut_refs)]
fn add(path: &str, data: &[u8], st: St) {
    // the web server sends the compressed logs encoded as such, what the client undoes
    let disk = match path.ends_with(".gz") {
        true => crate::sources::gz(data),
        false => data.to_vec(),
    };
    symos::file(format!("/vfs/l/{}", path).as_bytes(), &disk);
    unsafe { FILES.push(File { path: path.to_string(), data: data.to_vec(), st }) };
}

fn at(remote: bool, d: &str) -> Content {
    match remote {
        true => match Content::from_input(Input::from_string(format!("{}{}/", SITE, d))) {
            Ok(c) => c,
            Err(_) => fail("a remote directory is refused"),
        },
        false => dir(&format!("/vfs/l/{}", d)),
    }
}
fn analyse(b: Vec<Content>, t: Content) -> Option<Report> {
    let m = match Model::train(OutputMode::Quiet, b, hashing_index::new) {
        Ok(m) => m,
        Err(_) => return None,
    };
    m.report(OutputMode::Quiet, t).ok()
}
/// by name
fn sort(r: &mut Report) {
    r.log_reports.sort_by(|a, b| a.source.get_relative().trim_start_matches('/').cmp(b.source.get_relative().trim_start_matches('/')));
    for g in &mut r.index_errors {
        g.sort_by(|a, b| a.get_relative().trim_start_matches('/').cmp(b.get_relative().trim_start_matches('/')));
    }
    r.index_errors.sort_by_key(|g| g.first().map(|s| s.get_relative().trim_start_matches('/').to_string()));
    r.read_errors.sort_by_key(|(s, _)| s.get_relative().trim_start_matches('/').to_string());
}
fn names(s: &[Source]) -> Vec<&str> {
    let mut v: Vec<&str> = s.iter().map(|s| s.get_relative().trim_start_matches('/')).collect();
    v.sort();
    v
}
fn text(a: &str, b: &str, what: &'static str) {
    check(same(a.as_bytes(), b.as_bytes()), what);
}
fn compare(a: &Report, b: &Report) {
    check(a.log_reports.len() == b.log_reports.len(), "the anomalies of a source depend on where it is");
    for (x, y) in a.log_reports.iter().zip(&b.log_reports) {
        check(x.source.get_relative().trim_start_matches('/') == y.source.get_relative().trim_start_matches('/'), "a source has another name");
        check(x.index_name == y.index_name, "a source has another baseline");
        check(x.line_count == y.line_count && x.byte_count == y.byte_count, "a source has other counts");
        check(x.anomalies.len() == y.anomalies.len(), "a source has other anomalies");
        for (p, q) in x.anomalies.iter().zip(&y.anomalies) {
            check(p.anomaly.pos == q.anomaly.pos && p.anomaly.distance == q.anomaly.distance, "another anomaly");
            text(&p.anomaly.line, &q.anomaly.line, "another line");
            for (u, v) in [(&p.before, &q.before), (&p.after, &q.after)] {
                check(u.len() == v.len(), "another context");
                for (l, r) in u.iter().zip(v) {
                    text(l, r, "another context line");
                }
            }
        }
    }
    check(a.total_line_count == b.total_line_count && a.total_anomaly_count == b.total_anomaly_count, "other totals");
    check(a.index_errors.len() == b.index_errors.len(), "other sources have no baseline");
    for (x, y) in a.index_errors.iter().zip(&b.index_errors) {
        check(names(x) == names(y), "other sources have no baseline");
    }
    check(a.read_errors.len() == b.read_errors.len(), "other sources can't be read");
    for ((x, _), (y, _)) in a.read_errors.iter().zip(&b.read_errors) {
        check(x.get_relative().trim_start_matches('/') == y.get_relative().trim_start_matches('/'), "other sources can't be read");
    }
    check(a.index_reports.len() == b.index_reports.len(), "other baselines are used");
    for (n, i) in &a.index_reports {
        match b.index_reports.get(n) {
            Some(j) => check(names(&i.sources) == names(&j.sources), "other baselines are used"),
            None => fail("a baseline is missing"),
        }
    }
}
const KNOWN: &str = "starting service worker\n";
fn fresh(c: u8, n: usize) -> Vec<u8> {
    let mut l = vec![c];
    l.extend_from_slice(&over(n, b"ghijklmnop"));
    l.extend_from_slice(b" crashed unexpectedly\n");
    l
}
fn baseline(d: &str) {
    add(&format!("{}/alpha.log", d), KNOWN.as_bytes(), Fine);
    add(&format!("{}/sub/beta.log.gz", d), format!("{}stopping the other service\n", KNOWN).as_bytes(), Fine);
    add(&format!("{}/data.json", d), b"[\"first, value\", starting service worker, \"more\"]", Fine);
}
/// the target: the names, states and contents vary
fn target(d: &str, n: usize) -> bool {
    let mut good = true;
    for i in 0..n {
        let path = match choose(if i == 0 { 2 } else { 4 }) {
            0 => ["alpha.log", "alpha.log.1", "alpha.log.2.gz"][i],
            1 => ["sub/beta.log", "sub/beta.log.1.gz", "sub/beta-2.log"][i],
            2 => ["x.log", "deep/er/beta.log", "gamma.log"][i],
            _ => ["x.txt", "data.json", "015da2b/data.json.gz"][i],
        };
        let last = i + 1 == n;
        let st = if last { [Fine, NoOpen, Broken][choose(3)] } else { Fine };
        good &= st == Fine;
        let mut data = KNOWN.as_bytes().to_vec();
        match if last { 1 } else { choose(3) } {
            0 => {}
            1 => {
                data.extend_from_slice(&fresh(b'p' + i as u8, 3));
                data.extend_from_slice(KNOWN.as_bytes());
                cover("with an anomaly");
            }
            _ => {
                data.extend_from_slice(b"stopping the other service\n");
                // no newline at the end
                data.extend_from_slice(&fresh(b'p' + i as u8, 2));
                data.pop();
            }
        }
        if path.contains(".json") {
            // the values are the lines
            let lines: Vec<&[u8]> = data.split(|c| *c == b'\n').filter(|l| !l.is_empty()).collect();
            let mut json = b"[\"first, value\"".to_vec();
            for l in lines {
                json.extend_from_slice(b", ");
                json.extend_from_slice(l);
            }
            json.extend_from_slice(b"]\n");
            data = json;
            cover("json");
        }
        add(&format!("{}/{}", d, path), &data, st);
        if st != Fine {
            cover("failed");
        }
    }
    good
}

#[allow(static_mut_refs)]
fn places(n: usize) {
    reqwest::set_handler(serve);
    threadpool::set_budget(1);
    baseline("b");
    let good = target("t", n);
    symos::set_fault(Some(faults));
    let cache = flag();
    if cache {
        symos::set_env("LOGREDUCE_CACHE", "1");
    }
    let (b, t) = [(true, false), (false, true), (true, true)][choose(3)];
    unsafe { PIECE = if cache == b { 7 } else { 1000 } };
    let mut want = match analyse(vec![at(false, "b")], at(false, "t")) {
        Some(r) => r,
        None => fail("local files can't be analysed"),
    };
    sort(&mut want);
    for round in 0..2 {
        if round == 1 {
            if !cache {
                break;
            }
            unsafe {
                FETCHED.clear();
                if good {
                    DOWN = true;
                    cover("from the cache");
                }
            }
        }
        let mut got = match analyse(vec![at(b, "b")], at(t, "t")) {
            Some(r) => r,
            None => fail("remote files can't be analysed"),
        };
        sort(&mut got);
        compare(&want, &got);
    }
    cover("the same");
}

/// a build and its baseline, found through the api
#[allow(static_mut_refs)]
fn build(n: usize) {
    reqwest::set_handler(serve);
    threadpool::set_budget(1);
    baseline("b");
    target("t", n);
    symos::set_fault(Some(faults));
    if flag() {
        symos::set_env("LOGREDUCE_CACHE", "1");
    }
    let slash = ["/", ""][choose(2)];
    let json = |uuid: &str, change: usize, result: &str, logs: &str| {
        format!(
            "{{\"uuid\":\"{}\",\"job_name\":\"tox\",\"result\":\"{}\",\"voting\":true,\"log_url\":\"{}{}/\",\"project\":\"a/b\",\"branch\":\"main\",\
             \"pipeline\":\"gate\",\"duration\":42.5,\"change\":{},\"ref_url\":\"https://review.org/1\",\"ref\":\"refs/1\",\"artifacts\":[],\
             \"end_time\":\"2023-11-10T09:10:11\",\"start_time\":\"2023-11-01T09:10:11\",\"event_id\":\"e\",\"patchset\":null}}",
            uuid, result, SITE, logs, change
        )
        .replace(&format!("{}/\"", logs), &format!("{}{}\"", logs, slash))
    };
    let (mine, other) = ("a498f74ab32b49ffa9c9e7463fbf8885", "b498f74ab32b49ffa9c9e7463fbf8885");
    unsafe {
        API.push((format!("https://zuul.org/api/tenant/x/build/{}", mine), json(mine, 1, "FAILURE", "t").into_bytes()));
        API.push(("https://zuul.org/api/tenant/x/builds*".to_string(), format!("[{}]", json(other, 2, "SUCCESS", "b")).into_bytes()));
    }
    let mut want = match analyse(vec![at(false, "b")], at(false, "t")) {
        Some(r) => r,
        None => fail("local files can't be analysed"),
    };
    sort(&mut want);
    let c = match Content::from_input(Input::from_string(format!("https://zuul.org/t/x/build/{}", mine))) {
        Ok(c @ Content::Zuul(_)) => c,
        _ => fail("a build is refused"),
    };
    let b = match c.discover_baselines() {
        Ok(b) => b,
        Err(_) => fail("the baseline of a build is not found"),
    };
    let mut got = match analyse(b, c) {
        Some(r) => r,
        None => fail("a build can't be analysed"),
    };
    sort(&mut got);
    compare(&want, &got);
    check(matches!((&got.target, &got.baselines[..]), (Content::Zuul(t), [Content::Zuul(b)]) if t.uuid == mine && b.uuid == other), "the report is about another build");
    cover("the same");
}

/// one file against one file
#[allow(static_mut_refs)]
fn single() {
    reqwest::set_handler(serve);
    threadpool::set_budget(1);
    let (bn, tn) = [("b/alpha.log", "t/alpha.log"), ("b/alpha.log.gz", "t/alpha.log"), ("b/one.log", "t/two.log.gz"), ("alpha.log", "alpha.log.1")][choose(4)];
    add(bn, KNOWN.as_bytes(), Fine);
    let mut data = KNOWN.as_bytes().to_vec();
    let l = fresh(b'p', 3);
    if flag() {
        data.extend_from_slice(&l);
        cover("with an anomaly");
    }
    let st = [Fine, NoOpen, Broken][choose(3)];
    add(tn, &data, st);
    symos::set_fault(Some(faults));
    if flag() {
        symos::set_env("LOGREDUCE_CACHE", "1");
    }
    let get = |remote: bool, n: &str| {
        let t = match remote {
            true => format!("{}{}", SITE, n),
            false => format!("/vfs/l/{}", n),
        };
        match Content::from_input(Input::from_string(t)) {
            Ok(c @ Content::File(_)) => c,
            _ => fail("a file is refused"),
        }
    };
    let want = match analyse(vec![get(false, bn)], get(false, tn)) {
        Some(r) => r,
        None => fail("a local file can't be analysed"),
    };
    let (b, t) = [(true, false), (false, true), (true, true)][choose(3)];
    let got = match analyse(vec![get(b, bn)], get(t, tn)) {
        Some(r) => r,
        None => fail("a remote file can't be analysed"),
    };
    check(want.log_reports.len() == got.log_reports.len(), "the anomalies of a file depend on where it is");
    let n = (data.len() > KNOWN.len() && st != NoOpen) as usize;
    check(got.log_reports.len() == n && got.total_anomaly_count == n && want.total_anomaly_count == n, "a new line is not reported");
    for r in [&want, &got] {
        check(r.read_errors.len() == (st != Fine) as usize && r.index_errors.is_empty(), "other errors");
        for l2 in &r.log_reports {
            check(l2.line_count == 2 && l2.anomalies.len() == 1 && l2.anomalies[0].anomaly.pos == 2, "another anomaly");
            check(same(l2.anomalies[0].anomaly.line.as_bytes(), &l[..l.len() - 1]), "another line");
        }
    }
    check(want.total_line_count == got.total_line_count, "other totals");
    cover("the same");
}

pub fn run(arg: u64) {
    match arg {
        0 => places(2),
        10 => places(3),
        1 => build(2),
        11 => build(3),
        2 => single(),
        _ => fail("no such case"),
    }
}
