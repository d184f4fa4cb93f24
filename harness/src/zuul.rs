//! C17, C18: urls and Zuul builds.
use logreduce_model::{Content, Input, Source};
use reqwest::{Method, Reply};
use symrt::*;
use url::Url;

static mut HITS: Vec<(bool, String)> = Vec::new();
static mut PAGES: Vec<(String, u16, Vec<u8>)> = Vec::new();
#[allow(static_mut_refs)]
fn serve(m: Method, url: &Url) -> Option<Reply> {
    unsafe {
        HITS.push((m == Method::Head, url.as_str().to_string()));
        for (u, status, body) in &PAGES {
            if url.as_str() == u || (u.ends_with('*') && url.as_str().starts_with(&u[..u.len() - 1])) {
                if *status == 0 {
                    return None;
                }
                return Some(Reply { url: url.clone(), status: *status, body: vec![Some(body.clone())] });
            }
        }
        None
    }
}
#[allow(static_mut_refs)]
fn page(u: &str, status: u16, body: &[u8]) {
    unsafe { PAGES.push((u.to_string(), status, body.to_vec())) }
}
const UID: &str = "a498f74ab32b49ffa9c9e7463fbf8885";

struct Sample {
    uuid: String,
    job: &'static str,
    project: &'static str,
    branch: &'static str,
    pipeline: &'static str,
    change: String,
    voting: bool,
    log_url: String,
    ref_url: &'static str,
    end: String,
    result: &'static str,
}
fn sample() -> Sample {
    Sample {
        uuid: UID.to_string(),
        job: "tox py",
        project: "zuul/zuul",
        branch: "master",
        pipeline: "check",
        change: "1".into(),
        voting: true,
        log_url: "\"https://logs.org/1/\"".into(),
        ref_url: "\"https://review.org/1\"",
        end: "2023-11-10T09:10:11".into(),
        result: "\"SUCCESS\"",
    }
}
impl Sample {
    fn json(&self) -> String {
        format!(
            "{{\"uuid\":\"{}\",\"job_name\":\"{}\",\"result\":{},\"voting\":{},\"log_url\":{},\"project\":\"{}\",\"branch\":\"{}\",\
             \"pipeline\":\"{}\",\"duration\":42.5,\"change\":{},\"ref_url\":{},\"ref\":\"refs/1\",\"artifacts\":[],\"end_time\":\"{}\",\
             \"start_time\":\"2023-11-01T09:10:11\",\"event_id\":\"e\",\"patchset\":null}}",
            self.uuid, self.job, self.result, self.voting, self.log_url, self.project, self.branch, self.pipeline, self.change, self.ref_url, self.end
        )
    }
}

/// the build is the one the api described
fn described(b: &logreduce_model::zuul::Build, s: &Sample) {
    check(same(b.uuid.as_bytes(), s.uuid.as_bytes()), "the build is not the one the api gave");
    let text = |a: &str, b: &str| check(same(a.as_bytes(), b.as_bytes()), "the build is not as the api described it");
    text(&b.job_name, s.job);
    text(&b.project, s.project);
    text(&b.branch, s.branch);
    text(&b.pipeline, s.pipeline);
    text(&b.result, s.result.trim_matches('"'));
    text(b.log_url.as_str(), s.log_url.trim_matches('"'));
    text(b.ref_url.as_str(), s.ref_url.trim_matches('"'));
    text(&format!("{}", b.change), &s.change);
    text(&b.end_time.format("%Y-%m-%dT%H:%M:%S").to_string(), &s.end);
}

fn urls(arg: u64) {
    match arg {
        0 => {
            // every text is a path or a url, and never crashes
            let t = match choose(4) {
                0 => template("http????", b"s:/d. a[@"),
                1 => template("http://????", b"a/:@[]?#%. "),
                2 => template("????", b"ht:/p. "),
                _ => template("https:/?h?", b"/a:.%"),
            };
            let full = t.as_bytes();
            let web = full.starts_with(b"http://") || full.starts_with(b"https://");
            let i = Input::from_string(t.clone());
            match &i {
                Input::Url(u) => {
                    check(web, "a path is taken for a url");
                    check(same(u.as_bytes(), full), "a url is changed");
                }
                Input::Path(u) => {
                    check(!web, "a url is taken for a path");
                    check(same(u.as_bytes(), full), "a path is changed");
                }
            }
            match Content::from_input(i) {
                Ok(c) => {
                    check(web, "a missing path is accepted");
                    check(matches!(c, Content::File(Source::Remote(0, _)) | Content::Directory(Source::Remote(0, _))), "a url is not remote");
                    cover("url");
                }
                Err(_) => cover("refused"),
            }
            let _ = Content::from_input(Input::Url(t)).is_ok();
        }
        1 => {
            // files, directories
            let s = template("http://h.org/l???", b"a/?#.");
            if let Ok(u) = Url::parse(&s) {
                let dir = u.as_str().ends_with('/');
                match Content::from_url(u) {
                    Ok(Content::Directory(Source::Remote(0, v))) => {
                        check(dir, "a file is taken for a directory");
                        check(same(v.as_str().as_bytes(), Url::parse(&s).unwrap().as_str().as_bytes()), "a url is changed");
                        cover("directory");
                    }
                    Ok(Content::File(Source::Remote(0, v))) => {
                        check(!dir, "a directory is taken for a file");
                        check(same(v.as_str().as_bytes(), Url::parse(&s).unwrap().as_str().as_bytes()), "a url is changed");
                        cover("file");
                    }
                    _ => fail("a url is refused"),
                }
            }
            for u in ["mailto:x", "data:text/plain,x", "a:b"] {
                check(Content::from_url(Url::parse(u).unwrap()).is_err(), "a url that is not a location is accepted");
            }
        }
        2 => {
            // builds
            let k = choose(9);
            let mut uid = UID.as_bytes().to_vec();
            let i = [0, 9, 31][choose(3)];
            uid[i] = over(1, b"azAZ09-_.%~")[0];
            let mut uid = unsafe { String::from_utf8_unchecked(uid) };
            let mut is_uid = uid.as_bytes()[i].is_ascii_alphanumeric();
            match choose(6) {
                0 => {
                    uid.truncate(31);
                    is_uid = false
                }
                1 => {
                    uid.push_str(&template("?", b"a0Z-"));
                    is_uid = false
                }
                2 => {
                    uid.push_str("a498f74a");
                    is_uid = false
                }
                _ => {}
            }
            let (base, api) = [
                ("https://zuul.org/t/tenant", "https://zuul.org/api/tenant/tenant/"),
                ("https://h.org/zuul", "https://h.org/zuul/api/"),
                ("https://h.org", "https://h.org/api/"),
                ("https://zuul.org/t/t", "https://zuul.org/api/tenant/t/"),
                ("https://h.org/t/zuul/t/some", "https://h.org/t/zuul/api/tenant/some/"),
                ("https://h.org/build/zuul", "https://h.org/build/zuul/api/"),
                ("https://h.org/build/t/build", "https://h.org/build/api/tenant/build/"),
                ("https://h.org/t/tt/build/zuul/t/tt", "https://h.org/t/tt/build/zuul/api/tenant/tt/"),
                ("http://h.org:8080/zuul/t/a-b.c_d", "http://h.org:8080/zuul/api/tenant/a-b.c_d/"),
            ][k];
            let mut s = sample();
            s.uuid = "b498f74ab32b49ffa9c9e7463fbf8885".into();
            s.change = ["1", "5000000000", "0"][choose(3)].into();
            page("http*", 200, s.json().as_bytes());
            let url = Url::parse(&format!("{}/build/{}", base, uid)).unwrap();
            match Content::from_url(url) {
                Ok(Content::Zuul(b)) => {
                    check(is_uid, "something else is taken for a build");
                    described(&b, &s);
                    check(same(format!("{}", b).as_bytes(), format!("{}build/{}", api, s.uuid).as_bytes()), "the build has the wrong api");
                    #[allow(static_mut_refs)]
                    unsafe {
                        check(HITS.len() == 1 && !HITS[0].0, "the build is not requested once");
                        check(same(HITS[0].1.as_bytes(), format!("{}build/{}", api, uid).as_bytes()), "the build is requested from the wrong place");
                    }
                    cover("build");
                }
                Ok(Content::File(_)) => {
                    check(!is_uid, "a build is taken for a file");
                    cover("not a build");
                }
                _ => fail("the url of a build is refused"),
            }
            check(matches!(Content::from_url(Url::parse("https://h.org/x/a498f74ab32b49ffa9c9e7463fbf8885").unwrap()), Ok(Content::File(_))), "a file is taken for a build");
            check(matches!(Content::from_url(Url::parse("https://h.org/builds/a498f74ab32b49ffa9c9e7463fbf8885").unwrap()), Ok(Content::File(_))), "a file is taken for a build");
            check(matches!(Content::from_url(Url::parse("https://h.org/build/a498f74ab32b49ffa9c9e7463fbf8885/").unwrap()), Ok(Content::Directory(_))), "a directory is taken for a build");
        }
        3 => {
            // incomplete or invalid answers
            let mut s = sample();
            let ok = match choose(9) {
                0 => true,
                1 => {
                    s.change = "null".into();
                    false
                }
                2 => {
                    s.log_url = "null".into();
                    false
                }
                3 => {
                    s.ref_url = "null";
                    false
                }
                4 => {
                    s.result = "null";
                    false
                }
                5 => {
                    s.log_url = "\"not a url\"".into();
                    false
                }
                6 => {
                    s.end = "yesterday".into();
                    false
                }
                7 => {
                    s.change = "-1".into();
                    false
                }
                _ => {
                    page("https://*", [404, 500, 0][choose(3)], sample().json().as_bytes());
                    false
                }
            };
            let mut j = s.json().into_bytes();
            let mut cut = false;
            if ok && flag() {
                j.truncate(j.len() - 1 - choose(3) * 40);
                cut = true;
            }
            page("https://*", 200, &j);
            match Content::from_url(Url::parse(&format!("https://h.org/zuul/build/{}", UID)).unwrap()) {
                Ok(Content::Zuul(_)) => {
                    check(ok && !cut, "an incomplete answer is accepted");
                    cover("accepted");
                }
                Ok(_) => fail("a build is taken for something else"),
                Err(_) => {
                    check(!ok || cut, "a build is refused");
                    cover("refused");
                }
            }
        }
        _ => fail("no such case"),
    }
}

/// the rules: same project but another change, same branch, gate or periodic, voting, recent
fn score(s: &Sample, change: Option<u64>, days: i64) -> Option<i64> {
    let c = change?;
    if s.log_url == "null" || s.ref_url == "null" {
        return None;
    }
    let mut n = 0;
    if s.project == "zuul/zuul" {
        n += if c == 1 { -500 } else { 50 };
    }
    if s.branch == "master" {
        n += 50;
    }
    if s.pipeline.contains("gate") || s.pipeline.contains("periodic") {
        n += 50;
    }
    if s.voting {
        n += 10;
    }
    Some(n - if days < 0 { 0 } else { days })
}

#[allow(static_mut_refs)]
fn baselines(arg: u64) {
    let mut target = sample();
    target.job = ["tox py", "a&result=FAILURE", "50%=+;#?", "\u{e9}t\u{e9}"][if arg == 1 { choose(4) } else { 0 }];
    page(&format!("https://h.org/zuul/api/build/{}", UID), 200, target.json().as_bytes());
    let mut list = String::from("[");
    let mut samples = vec![];
    let mut best: Option<(i64, usize)> = None;
    let n = if arg == 12 { 3 } else { 2 };
    for i in 0..n {
        let mut s = sample();
        s.job = target.job;
        s.uuid = ["a498f74ab32b49ffa9c9e7463fbf8886", "e498f74ab32b49ffa9c9e7463fbf8885", "a498f74ab32b49ffb9c9e7463fbf8885"][i].to_string();
        s.log_url = format!("\"https://logs.org/b{}/\"", i);
        // the clock of the harness says 2023-11-14
        let mut days = 4;
        let mut change = Some(2);
        s.change = "2".into();
        let mut available = true;
        let mut usable = true;
        let mut status = 200;
        let mut raw = None;
        let kind = match arg {
            1 => {
                if i == 0 {
                    choose(12)
                } else {
                    [0, 1, 4][choose(3)]
                }
            }
            2 | 12 => 12,
            _ => choose(4),
        };
        match kind {
            0 => {}
            1 => {
                // the same change
                s.change = "1".into();
                change = Some(1)
            }
            2 => {
                s.change = "null".into();
                change = None;
                if flag() {
                    s.project = "other/project";
                }
            }
            3 => {
                s.project = "other/project";
                s.change = "5000000000".into();
                change = Some(5000000000)
            }
            4 => s.branch = "stable",
            5 => s.pipeline = ["gate", "periodic", "tripleo-gate"][choose(3)],
            6 => s.voting = false,
            7 => s.log_url = "null".into(),
            8 => s.ref_url = "null",
            9 => {
                available = false;
                status = [404, 0, 500][choose(3)]
            }
            10 => {
                // the build itself
                s.uuid = UID.to_string();
                usable = false
            }
            11 => {
                // not a complete build
                match choose(7) {
                    0 => s.result = "null",
                    1 => s.log_url = "\"not a url\"".into(),
                    2 => s.log_url = "12".into(),
                    3 => s.ref_url = "\"\"",
                    4 => s.end = "".into(),
                    5 => s.change = "-2".into(),
                    _ => raw = Some(["null", "{}", "[]", "\"x\"", "7"][choose(5)]),
                }
                usable = false
            }
            _ => {
                // any day of two months, some of them in the future
                let mut v = b"2023-11-05T09:10:11".to_vec();
                if i == n - 1 {
                    v[8] = b'0' + choose(2) as u8;
                    v[9] = over(1, b"123456789")[0];
                    v[6] = b'0' + choose(2) as u8;
                } else if i == 0 {
                    v[8] = b'0' + choose(2) as u8;
                    v[9] = over(1, b"123456789")[0];
                } else if flag() {
                    v[8] = b'1';
                }
                days = 14 - 10 * (v[8] - b'0') as i64 - (v[9] - b'0') as i64 + 31 * (1 - (v[6] - b'0') as i64);
                s.end = unsafe { String::from_utf8_unchecked(v) };
            }
        }
        if i > 0 {
            list.push(',');
        }
        match raw {
            Some(r) => list.push_str(r),
            None => list.push_str(&s.json()),
        }
        page(&format!("https://logs.org/b{}/", i), status, b"");
        samples.push(s);
        let s = &samples[i];
        if available && usable {
            if let Some(n) = score(s, change, days) {
                // the first of the best
                if best.map_or(true, |b| n > b.0) {
                    best = Some((n, i));
                }
            }
        }
    }
    list.push(']');
    page("https://h.org/zuul/api/builds?*", 200, list.as_bytes());
    let content = match Content::from_url(Url::parse(&format!("https://h.org/zuul/build/{}", UID)).unwrap()) {
        Ok(c) => c,
        Err(_) => fail("a build is refused"),
    };
    unsafe { HITS.clear() };
    match content.discover_baselines() {
        Ok(b) => {
            check(b.len() == 1, "not exactly one baseline");
            match (&b[0], best) {
                (Content::Zuul(b), Some((_, i))) => {
                    check(b.uuid != UID, "a build is its own baseline");
                    check(same(b.log_url.as_str().as_bytes(), format!("https://logs.org/b{}/", i).as_bytes()), "the baseline is not the best available build");
                    described(b, &samples[i]);
                    cover("found");
                }
                _ => fail("a build that can't be used is the baseline"),
            }
        }
        Err(_) => {
            check(best.is_none(), "a usable baseline is not found");
            cover("none");
        }
    }
    unsafe {
        let q = HITS.iter().filter(|h| !h.0).collect::<Vec<_>>();
        check(q.len() == 1, "the builds are not requested once");
        let q = &q[0].1;
        let q = Url::parse(q).unwrap_or_else(|_| fail("the builds are requested from nowhere"));
        let (mut job, mut result) = (0, 0);
        for (k, v) in q.query_pairs() {
            match &*k {
                "job_name" => {
                    job += 1;
                    check(v == target.job, "the builds of another job are requested")
                }
                "result" => {
                    result += 1;
                    check(v == "SUCCESS", "failed builds are requested")
                }
                "limit" => check(v.parse::<u64>().map_or(false, |n| n >= 500), "not all the builds are requested"),
                "complete" => {}
                _ => fail("not all the builds are requested"),
            }
        }
        check(job == 1, "the builds of another job are requested");
        check(result == 1, "failed builds are requested");
    }
}

/// the date of a number of days before the 14th of November 2023, at some time of that day
fn date(days: i64) -> String {
    let z = 19675 - days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{:04}-{:02}-{:02}T09:10:11", y, m, d)
}

/// two builds whose scores differ by at most one, whatever their attributes
fn weights() {
    let target = sample();
    page(&format!("https://h.org/zuul/api/build/{}", UID), 200, target.json().as_bytes());
    let mut s = [sample(), sample()];
    let k = choose(3);
    let mut change = [2u64, 2];
    if k == 1 {
        change[0] = 1;
    }
    if k == 2 {
        s[0].project = "other/project";
        change[0] = choose(2) as u64 + 1;
    }
    if flag() {
        s[0].branch = "stable";
    }
    if flag() {
        s[0].pipeline = ["gate", "periodic-daily", "tripleo-gate", "my-periodic"][choose(4)];
    }
    if flag() {
        s[0].voting = false;
    }
    let plain = score(&s[0], Some(change[0]), 0).unwrap() - score(&s[1], Some(change[1]), 0).unwrap();
    // the ages make up for the attributes, to a day
    let delta = choose(3) as i64 - 1;
    let late = plain + delta;
    let mut ages = if late >= 0 { [late, 0] } else { [0, -late] };
    for a in &mut ages {
        // in the future
        if *a == 0 && flag() {
            *a = -7;
        }
    }
    let mut list = String::from("[");
    let first = choose(2);
    let mut best: Option<(i64, usize)> = None;
    for n in 0..2 {
        let i = n ^ first;
        s[i].uuid = format!("{}498f74ab32b49ffa9c9e7463fbf8885", ["d", "e"][i]);
        s[i].log_url = format!("\"https://logs.org/b{}/\"", i);
        s[i].change = format!("{}", change[i]);
        s[i].end = date(ages[i]);
        if n > 0 {
            list.push(',');
        }
        list.push_str(&s[i].json());
        page(&format!("https://logs.org/b{}/", i), 200, b"");
        let v = score(&s[i], Some(change[i]), ages[i]).unwrap();
        if best.map_or(true, |b| v > b.0) {
            best = Some((v, i));
        }
    }
    list.push(']');
    page("https://h.org/zuul/api/builds?*", 200, list.as_bytes());
    let content = match Content::from_url(Url::parse(&format!("https://h.org/zuul/build/{}", UID)).unwrap()) {
        Ok(c) => c,
        Err(_) => fail("a build is refused"),
    };
    match content.discover_baselines() {
        Ok(b) => match &b[..] {
            [Content::Zuul(b)] => {
                let want = format!("https://logs.org/b{}/", best.unwrap().1);
                check(same(b.log_url.as_str().as_bytes(), want.as_bytes()), "the baseline is not the build with the best score");
                cover("found");
            }
            _ => fail("not exactly one baseline"),
        },
        Err(_) => fail("a usable baseline is not found"),
    }
}

/// many builds: the best one is anywhere in the answer, and the ones before it may have lost their logs
fn many(n: usize) {
    page(&format!("https://h.org/zuul/api/build/{}", UID), 200, sample().json().as_bytes());
    let at = [0, 1, n / 2, n - 1][choose(4)];
    let gone = [0, 1, 12][choose(3)];
    let mut list = String::from("[");
    for i in 0..n {
        let mut s = sample();
        s.uuid = format!("{:032x}", i * 7 + 3);
        s.change = "2".into();
        // better and better, but without logs
        let lost = i != at && i < gone + 2;
        s.branch = if i == at || lost { "master" } else { "stable" };
        s.pipeline = if lost { "gate" } else { "check" };
        s.log_url = format!("\"https://logs.org/b{}/\"", i);
        page(&format!("https://logs.org/b{}/", i), if lost { 404 } else { 200 }, b"");
        if i > 0 {
            list.push(',');
        }
        list.push_str(&s.json());
    }
    list.push(']');
    page("https://h.org/zuul/api/builds?*", 200, list.as_bytes());
    let content = match Content::from_url(Url::parse(&format!("https://h.org/zuul/build/{}", UID)).unwrap()) {
        Ok(c) => c,
        Err(_) => fail("a build is refused"),
    };
    match content.discover_baselines() {
        Ok(b) => match &b[..] {
            [Content::Zuul(b)] => {
                check(b.uuid == format!("{:032x}", at * 7 + 3), "the baseline is not the best available build");
                cover("found");
            }
            _ => fail("not exactly one baseline"),
        },
        Err(_) => fail("a usable baseline is not found"),
    }
}

/// C16: what goes wrong once is not remembered
#[allow(static_mut_refs)]
pub fn again() {
    symos::set_env("LOGREDUCE_CACHE", "1");
    reqwest::set_handler(serve);
    let (build, builds) = (format!("https://h.org/zuul/api/build/{}", UID), "https://h.org/zuul/api/builds?*");
    let mut s = sample();
    let one = s.json();
    s.uuid = "d498f74ab32b49ffa9c9e7463fbf8885".into();
    s.change = "2".into();
    s.log_url = "\"https://logs.org/b/\"".into();
    let list = format!("[{}]", s.json());
    let all = |a: u16, ab: &[u8], b: u16, bb: &[u8], h: u16| {
        unsafe { PAGES.clear() };
        page(&build, a, ab);
        page(builds, b, bb);
        page("https://logs.org/b/", h, b"");
    };
    let fault = choose(7);
    match fault {
        0 => all(0, b"", 0, b"", 0),
        1 => all(200, b"{", 200, list.as_bytes(), 200),
        2 => all(500, one.as_bytes(), 200, list.as_bytes(), 200),
        3 => all(200, one.as_bytes(), 0, b"", 200),
        4 => all(200, one.as_bytes(), 200, [&b"not json"[..], b"[", b"{}", &list.as_bytes()[..60], b""][choose(5)], 200),
        5 => all(200, one.as_bytes(), 200, list.as_bytes(), 0),
        _ => all(200, one.as_bytes(), 200, list.as_bytes(), 200),
    }
    let go = || {
        let url = Url::parse(&format!("https://h.org/zuul/build/{}", UID)).unwrap();
        Content::from_url(url).and_then(|c| c.discover_baselines())
    };
    check(go().is_ok() == (fault == 6), "a request that failed is taken for an answer");
    all(200, one.as_bytes(), 200, list.as_bytes(), 200);
    unsafe { HITS.clear() };
    match go() {
        Ok(b) => match &b[..] {
            [Content::Zuul(b)] => check(b.uuid == s.uuid, "the baseline is another build"),
            _ => fail("not exactly one baseline"),
        },
        Err(_) => fail("a transient failure is remembered"),
    }
    if fault == 6 {
        check(unsafe { HITS.is_empty() }, "a cached answer is requested again");
        cover("cached");
    } else {
        cover("failed");
    }
}

pub fn run(arg: u64) {
    reqwest::set_handler(serve);
    match arg {
        0..=9 => urls(arg),
        13 => weights(),
        14 => many(40),
        15 => many(300),
        _ => baselines(arg - 10),
    }
}
