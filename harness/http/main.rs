//! C11: crawling an index of directories, against a server whose pages, faults and worker schedule are symbolic.
use httpdir::Crawler;
use reqwest::{Method, Reply};
use symrt::*;
use url::Url;

struct Server {
    /// entries a page may have at each depth
    width: [usize; 4],
    /// kinds of entries the explorer chooses from
    kinds: usize,
    faults: usize,
    files: Vec<String>,
    pages: Vec<String>,
    failed: usize,
    names: usize,
    /// directories whose page links a file that another page links too
    extra: Vec<String>,
    /// directories that were linked
    dirs: Vec<String>,
}
static mut S: Server =
    Server { width: [0; 4], kinds: 3, faults: 0, files: Vec::new(), pages: Vec::new(), failed: 0, names: 0, extra: Vec::new(), dirs: Vec::new() };
#[allow(static_mut_refs)]
fn s() -> &'static mut Server {
    unsafe { &mut S }
}
const ROOTS: [&str; 4] = ["http://h.org/logs/12/", "http://h.org/etc/12/", "http://h.org/etc/", "http://h.org/"];
static mut ROOT_NR: usize = 0;
fn root() -> &'static str {
    ROOTS[unsafe { ROOT_NR }]
}

fn page(entries: &[String]) -> Vec<u8> {
    let mut p = String::from("<html><h1>Index of</h1><a href=\"?C=N;O=D\">Name</a>\n");
    for e in entries {
        p.push_str("<tr><td><img src=\"/icons/text.gif\"></td><td><a href=\"");
        p.push_str(e);
        p.push_str("\">");
        p.push_str(e);
        p.push_str("</a></td></tr>\n");
    }
    p.into_bytes()
}
/// links that lead out of the directory, or to what must not be crawled
const NOISE: [&str; 10] = ["/logs/", "etc/", "index.html", "sub/../../../up.log", "/logs/12x/near.log", "../", "/robots.txt", "/elsewhere/deep/directory/", "http://other.org/logs/12/far.log", "//other.org/logs/12/sub/"];

fn serve(m: Method, url: &Url) -> Option<Reply> {
    let st = s();
    let u = url.as_str().to_string();
    check(m == Method::Get, "an index page is not requested with GET");
    check(u.starts_with(root()), "the crawler left the directory it was given");
    check(u == root() || !u.ends_with("/etc/"), "the crawler entered /etc/");
    check(!st.pages.contains(&u), "a directory is listed twice");
    check(u.ends_with('/'), "a file is requested as a directory");
    st.pages.push(u.clone());
    let depth = u[root().len()..].matches('/').count();
    if st.faults > 0 {
        let f = choose(4);
        if f > 0 {
            cover("a page fails");
            st.faults -= 1;
            st.failed += 1;
            // what a failed page names must not be taken for the content of the directory
            let body = page(&["ghost.log".to_string()]);
            return match f {
                1 => None,
                2 => Some(Reply { url: url.clone(), status: 200, body: vec![Some(body[..body.len() / 2].to_vec()), None] }),
                _ => Some(Reply { url: url.clone(), status: [404, 500, 403][choose(3)], body: vec![Some(body)] }),
            };
        }
    }
    let n = if depth < 4 { choose(st.width[depth] + 1) } else { 0 };
    let mut links = vec![];
    if st.extra.contains(&u) {
        links.push("far-x.log".to_string());
    }
    for _ in 0..n {
        st.names += 1;
        let deeper = depth < 3 && st.width[depth + 1] > 0;
        match choose(st.kinds) {
            0 => {
                let f = ["job-output.txt", "5", "my_index.html", "x", "etc", "b.log.gz", "index.html.gz"][st.names % 7].to_string();
                let f = if st.names >= 7 { format!("{}{}", st.names, f) } else { f };
                st.files.push(format!("{}{}", u, f));
                links.push(f);
                cover("a file");
            }
            1 if deeper => {
                links.push(format!("d{}/", st.names));
                st.dirs.push(format!("{}d{}/", u, st.names));
                cover("a directory");
            }
            // a second link to something already linked, with or without its index page
            5 if !links.is_empty() => {
                let l: String = links[choose(links.len())].clone();
                cover("a second link");
                match l.strip_suffix("/index.html") {
                    Some(d) if flag() => links.push(format!("{}/", d)),
                    _ if l.ends_with('/') && flag() => links.push(format!("{}index.html", l)),
                    _ => links.push(l),
                }
            }
            // a link to a file of a directory that is linked too
            6 if deeper => {
                links.push(format!("d{}/", st.names));
                links.push(format!("d{}/far-x.log", st.names));
                st.files.push(format!("{}d{}/far-x.log", u, st.names));
                st.extra.push(format!("{}d{}/", u, st.names));
                st.dirs.push(format!("{}d{}/", u, st.names));
                cover("a file linked from two pages");
            }
            2 => {
                links.push(format!("i{}/index.html", st.names));
                st.dirs.push(format!("{}i{}/", u, st.names));
                cover("a directory linked through its index.html");
            }
            3 => {
                links.push(NOISE[choose(NOISE.len())].to_string());
                cover("a link out of the directory");
            }
            _ => {
                let f = format!("sub/deep-{}.log", st.names);
                st.files.push(format!("{}{}", u, f));
                links.push(f);
            }
        }
    }
    Some(Reply { url: url.clone(), status: 200, body: vec![Some(page(&links))] })
}

fn blocked(timed: bool) -> bool {
    static mut TIMEOUTS: usize = 2;
    if timed && unsafe { TIMEOUTS > 0 } && symrt::flag() {
        unsafe { TIMEOUTS -= 1 };
        return false;
    }
    threadpool::on_block()
}

fn crawled() {
    for d in &s().dirs {
        check(s().pages.contains(d), "a directory is not listed");
    }
}

fn compare(mut got: Vec<String>) {
    crawled();
    let mut want = s().files.clone();
    got.sort();
    want.sort();
    for g in &got {
        check(want.contains(g), "a url that is not a file of the directory is listed");
    }
    for w in &want {
        check(got.contains(w), "a file is not listed");
    }
    check(got.len() == want.len(), "a file is listed twice");
}

fn walk() {
    let (mut got, mut errors) = (vec![], 0);
    for r in Crawler::new().walk(Url::parse(root()).unwrap()) {
        match r {
            Ok(u) => got.push(u.as_str().to_string()),
            Err(_) => errors += 1,
        }
        if got.len() + errors > 40 {
            fail("the crawl does not end");
        }
    }
    if s().files.len() > 1 {
        cover("several files");
    }
    compare(got);
    check(errors >= s().failed, "a page that could not be read is not reported");
    check(errors <= s().failed, "an error is reported though every page was read");
}

fn list(c: &Crawler) -> bool {
    match c.list(Url::parse(root()).unwrap()) {
        Ok(v) => {
            check(s().failed == 0, "a page that could not be read is not reported");
            compare(v.iter().map(|u| u.as_str().to_string()).collect());
            if v.len() > 1 {
                cover("several files");
            }
            true
        }
        Err(_) => {
            check(s().failed > 0, "an error is reported though every page was read");
            crawled();
            false
        }
    }
}

/// the name of a file or directory, every character of it
fn name(n: usize, dir: bool) {
    static mut LINK: String = String::new();
    let mut l = String::new();
    for i in 0..n {
        let b = if i == 0 {
            over(1, b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")[0]
        } else {
            over(1, b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~!$&'()*+,;=@")[0]
        };
        unsafe { l.as_mut_vec().push(b) };
    }
    #[allow(static_mut_refs)]
    unsafe {
        LINK = l.clone()
    };
    #[allow(static_mut_refs)]
    fn one(_: Method, url: &Url) -> Option<Reply> {
        let l = unsafe { LINK.clone() };
        let root = url.as_str() == root();
        let e = if !root {
            vec!["inside.log".to_string()]
        } else if unsafe { DIR } {
            vec![format!("{}/", l)]
        } else {
            vec![l]
        };
        Some(Reply { url: url.clone(), status: 200, body: vec![Some(page(&e))] })
    }
    static mut DIR: bool = false;
    unsafe { DIR = dir };
    reqwest::set_handler(one);
    let r = httpdir::list(Url::parse(root()).unwrap()).unwrap();
    if dir {
        let et = l.len() == 3 && same(l.as_bytes(), b"etc");
        if et {
            check(r.is_empty(), "the crawler entered /etc/");
            return;
        }
        check(r.len() == 1, "a directory is not crawled whatever its name");
        let want = format!("{}{}/inside.log", root(), l);
        check(same(r[0].as_str().as_bytes(), want.as_bytes()), "a file of a directory is listed with the wrong url");
    } else {
        check(r.len() == 1, "a file is not listed whatever its name");
        let want = format!("{}{}", root(), l);
        check(same(r[0].as_str().as_bytes(), want.as_bytes()), "a file is listed with the wrong url");
    }
    cover("named");
}

/// wide, deep and oddly named directories, and directories given without their last slash
fn large(files: usize, levels: usize) {
    static mut SHAPE: (usize, usize, usize) = (0, 0, 0);
    fn tree(_: Method, url: &Url) -> Option<Reply> {
        let (shape, files, levels) = unsafe { SHAPE };
        let st = s();
        let u = url.as_str().to_string();
        let base = "http://h.org/logs/12";
        check(u.starts_with(base), "the crawler left the directory it was given");
        check(!st.pages.contains(&u), "a directory is listed twice");
        st.pages.push(u.clone());
        // the server adds the last slash
        let u = if u == base { format!("{}/", u) } else { u };
        let mut links: Vec<String> = vec![];
        let depth = u[base.len()..].matches('/').count();
        match shape {
            0 => {
                for i in 0..files {
                    links.push(format!("log{}.txt", i));
                }
                if depth == 1 {
                    links.push("more/".to_string());
                }
            }
            1 => {
                links.push("my.log".to_string());
                if depth < levels {
                    links.push(["l/", "l/index.html", "index.html/"][depth % 3].to_string());
                }
            }
            2 => {
                for i in 0..if depth == 1 { files } else { 1 } {
                    links.push(if depth == 1 { format!("dir{}/", i) } else { "my.log".to_string() });
                }
            }
            _ => {
                for f in ["a%20b.log", "a%3Fb.log", "c.log?raw=1", "d%23e.log", "index.htm", "xindex.html", "%C3%A9.log", "index.html.d/", "etc.d/", "x.etc/", "12/", "logs/"] {
                    if depth == 1 || !f.ends_with('/') {
                        links.push(f.to_string());
                    }
                }
            }
        }
        links.retain(|l| !l.starts_with('%'));
        for l in &links {
            if !l.ends_with('/') && !l.ends_with("/index.html") {
                st.files.push(format!("{}{}", u, l));
            } else {
                st.dirs.push(format!("{}{}", u, l.strip_suffix("index.html").unwrap_or(l)));
            }
        }
        cover("large");
        Some(Reply { url: Url::parse(&u).unwrap(), status: 200, body: vec![Some(page(&links))] })
    }
    unsafe { SHAPE = (choose(4), files, levels) };
    reqwest::set_handler(tree);
    let url = Url::parse(["http://h.org/logs/12/", "http://h.org/logs/12"][choose(2)]).unwrap();
    let got: Vec<Url> = if flag() {
        match httpdir::list(url) {
            Ok(v) => v,
            Err(_) => fail("an error is reported though every page was read"),
        }
    } else {
        let mut v = vec![];
        for r in Crawler::new().walk(url) {
            match r {
                Ok(u) => v.push(u),
                Err(_) => fail("an error is reported though every page was read"),
            }
            if v.len() > 10 * files + levels {
                fail("the crawl does not end");
            }
        }
        v
    };
    compare(got.iter().map(|u| u.as_str().to_string()).collect());
}

fn run(arg: u64) {
    symos::init();
    symos::set_block(blocked);
    reqwest::set_handler(serve);
    let st = s();
    match arg {
        // schedules: files and directories only
        1 | 11 => {
            st.width = if arg == 1 { [2, 1, 0, 0] } else { [2, 2, 1, 0] };
            st.kinds = 2;
            threadpool::set_budget(if arg == 1 { 8 } else { 7 });
            walk()
        }
        2 | 12 => {
            st.width = if arg == 2 { [2, 1, 1, 0] } else { [3, 2, 1, 0] };
            st.kinds = 2;
            threadpool::set_budget(4);
            list(&Crawler::new());
        }
        // directories below /etc/, the root of a server
        9 => {
            unsafe { ROOT_NR = 1 + choose(3) };
            st.width = [2, 1, 1, 0];
            st.kinds = 2;
            threadpool::set_budget(0);
            if flag() {
                walk()
            } else {
                list(&Crawler::new());
            }
        }
        // every kind of link
        3 | 13 => {
            st.width = if arg == 3 { [2, 1, 0, 0] } else { [3, 1, 1, 0] };
            st.kinds = 5;
            threadpool::set_budget(0);
            walk()
        }
        // several links to the same thing
        10 | 20 => {
            st.width = if arg == 10 { [2, 1, 0, 0] } else { [2, 1, 1, 0] };
            st.kinds = 7;
            threadpool::set_budget(if arg == 10 { 3 } else { 1 });
            if flag() {
                walk()
            } else {
                list(&Crawler::new());
            }
        }
        16 | 26 => {
            threadpool::set_budget(0);
            if arg == 16 {
                large(70, 16)
            } else {
                large(400, 60)
            }
        }
        // failing pages
        4 | 14 => {
            st.width = if arg == 4 { [2, 1, 0, 0] } else { [2, 2, 0, 0] };
            st.kinds = 2;
            st.faults = if arg == 4 { 1 } else { 2 };
            threadpool::set_budget(2);
            walk()
        }
        5 | 15 => {
            st.width = if arg == 5 { [2, 1, 0, 0] } else { [2, 2, 0, 0] };
            st.kinds = 2;
            st.faults = if arg == 5 { 1 } else { 2 };
            threadpool::set_budget(2);
            let c = Crawler::new();
            if !list(&c) {
                // the same crawler is used again
                let st = s();
                st.files.clear();
                st.pages.clear();
                st.dirs.clear();
                st.extra.clear();
                st.failed = 0;
                st.faults = 0;
                cover("used again after a failure");
                list(&c);
            }
        }
        6..=7 => name(1 + 2 * (arg as usize - 6), false),
        8 => name(3, true),
        _ => fail("no such case"),
    }
}
entry!(run);
