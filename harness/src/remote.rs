//! C16: remote content, with and without the cache.
use logreduce_cache::Cache;
use logreduce_model::Source;
use reqwest::{Method, Reply};
use std::io::Read;
use symos::Op;
use symrt::*;
use url::Url;

/// a remote object delivered in pieces, failing where the explorer wants
struct Remote {
    data: Vec<u8>,
    off: usize,
    fail: Option<usize>,
}
impl Read for Remote {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.fail.map_or(false, |f| self.off >= f) {
            // once, then the connection is closed
            self.fail = None;
            self.off = self.data.len();
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "connection reset"));
        }
        let n = b.len().min(self.data.len() - self.off).min(1 + choose(2) * 3);
        b[..n].copy_from_slice(&self.data[self.off..self.off + n]);
        self.off += n;
        Ok(n)
    }
}
fn u(s: &str) -> Url {
    Url::parse(s).unwrap()
}
fn drain<R: Read>(mut r: R, stop: usize) -> Result<Vec<u8>, Vec<u8>> {
    let mut v = vec![];
    let mut b = [0; 5];
    for _ in 0..stop {
        match r.read(&mut b) {
            Ok(0) => return Ok(v),
            Ok(n) => v.extend_from_slice(&b[..n]),
            Err(_) => {
                // a careless reader goes on
                let _ = r.read(&mut b);
                return Err(v);
            }
        }
    }
    Err(v)
}
/// what the cache holds: nothing, or the whole content
fn cached(c: &Cache, base: &Url, url: &Url, want: &[u8]) -> bool {
    match c.remote_get(base, url) {
        None => false,
        Some(Err(_)) => fail("an entry of the cache can't be opened"),
        Some(Ok(r)) => match drain(r, 1000) {
            Ok(v) => {
                check(v.len() == want.len() && same(&v, want), "the cache holds something else than what was downloaded");
                true
            }
            Err(_) => fail("an entry of the cache is damaged"),
        },
    }
}
static mut STRIKE: usize = usize::MAX;
static mut COUNT: usize = 0;
fn disk(op: Op, p: &[u8], n: usize) -> Result<usize, i32> {
    if p.starts_with(b"/vfs/cache") && matches!(op, Op::Write | Op::Create | Op::Mkdir | Op::Rename) {
        unsafe {
            COUNT += 1;
            if COUNT > STRIKE {
                return Err(symos::ENOSPC);
            }
        }
    }
    Ok(n)
}

fn transfer(n: usize) {
    let c = Cache::new().unwrap();
    let (base, url) = (u("http://h.org/logs/"), u("http://h.org/logs/a.log"));
    let mut data = vec(n);
    data.extend_from_slice(b" and so on");
    check(c.remote_get(&base, &url).is_none(), "something is cached before it was downloaded");
    symos::set_fault(Some(disk));
    match choose(5) {
        0 => {
            // complete
            let r = match c.remote_add(&base, &url, Remote { data: data.clone(), off: 0, fail: None }) {
                Ok(r) => r,
                Err(_) => fail("the cache can't be used"),
            };
            match drain(r, 1000) {
                Ok(v) => check(v.len() == data.len() && same(&v, &data), "what is read is not what the server sent"),
                Err(_) => fail("a complete transfer fails"),
            }
            check(cached(&c, &base, &url, &data), "a complete transfer is not cached");
            cover("complete");
            check(c.remote_drop(&base, &url).is_ok(), "an entry can't be dropped");
            check(c.remote_get(&base, &url).is_none(), "an entry is still there after it was dropped");
        }
        1 => {
            // the connection fails
            let at = choose(data.len());
            let r = c.remote_add(&base, &url, Remote { data: data.clone(), off: 0, fail: Some(at) });
            match r.map_err(|_| ()).map(|r| drain(r, 1000)) {
                Ok(Err(v)) => check(v.len() <= data.len() && same(&v, &data[..v.len()]), "what is read is not what the server sent"),
                _ => fail("a failed transfer is taken for a complete one"),
            }
            cached(&c, &base, &url, &data);
            cover("connection lost");
        }
        2 => {
            // the reader stops early
            let r = c.remote_add(&base, &url, Remote { data: data.clone(), off: 0, fail: None });
            match r {
                Ok(r) => {
                    let _ = drain(r, choose(3));
                }
                Err(_) => fail("the cache can't be used"),
            }
            cached(&c, &base, &url, &data);
            cover("stopped");
        }
        3 => {
            // the program is killed
            let r = c.remote_add(&base, &url, Remote { data: data.clone(), off: 0, fail: None });
            match r {
                Ok(mut r) => {
                    let mut b = [0; 5];
                    for _ in 0..choose(3) {
                        let _ = r.read(&mut b);
                    }
                    std::mem::forget(r);
                }
                Err(_) => fail("the cache can't be used"),
            }
            cached(&c, &base, &url, &data);
            cover("killed");
        }
        _ => {
            // the disk is full
            unsafe { STRIKE = COUNT + choose(5) };
            let r = c.remote_add(&base, &url, Remote { data: data.clone(), off: 0, fail: None });
            if let Ok(r) = r {
                if let Ok(v) = drain(r, 1000) {
                    check(v.len() == data.len() && same(&v, &data), "what is read is not what the server sent");
                }
            }
            unsafe { STRIKE = usize::MAX };
            cached(&c, &base, &url, &data);
            cover("disk full");
        }
    }
    // whatever happened, the next transfer works
    if !cached(&c, &base, &url, &data) {
        let r = match c.remote_add(&base, &url, Remote { data: data.clone(), off: 0, fail: None }) {
            Ok(r) => r,
            Err(_) => fail("the cache can't be used after a failure"),
        };
        match drain(r, 1000) {
            Ok(v) => check(v.len() == data.len() && same(&v, &data), "what is read is not what the server sent"),
            Err(_) => fail("a complete transfer fails"),
        }
        check(cached(&c, &base, &url, &data), "a complete transfer is not cached");
    }
}

/// directory listings and availability
fn listing() {
    let c = Cache::new().unwrap();
    let url = u("http://h.org/logs/");
    let names = ["a.log", "b/c.log", "d%20e.log"];
    let n = choose(4);
    let urls: Vec<Url> = names[..n].iter().map(|p| url.join(p).unwrap()).collect();
    check(c.httpdir_get(&url).is_none(), "something is cached before it was listed");
    symos::set_fault(Some(disk));
    if flag() {
        unsafe { STRIKE = COUNT + choose(4) };
        let ok = c.httpdir_add(&url, &urls).is_ok();
        unsafe { STRIKE = usize::MAX };
        match c.httpdir_get(&url) {
            None => check(!ok, "a listing is lost"),
            Some(Ok(v)) => check(v == urls, "another listing is returned"),
            Some(Err(_)) => fail("a listing that failed to be saved breaks the next ones"),
        }
        cover("listing not saved");
    }
    if c.httpdir_get(&url).is_none() {
        check(c.httpdir_add(&url, &urls).is_ok(), "a listing can't be saved");
    }
    match c.httpdir_get(&url) {
        Some(Ok(v)) => check(v == urls, "another listing is returned"),
        _ => fail("a listing is lost"),
    }
    check(c.httpdir_get(&u("http://h.org/logs")).is_none(), "the listing of another directory is returned");
    let others = ["http://h.org/logs/?a=1", "https://h.org/logs/", "http://h.org:81/logs/", "http://i.org/logs/", "http://h.org/Logs/", "http://h.org/logs/b/"];
    let other = u(others[choose(others.len())]);
    check(c.httpdir_get(&other).is_none(), "the listing of another directory is returned");
    check(c.httpdir_drop(&url).is_ok() && c.httpdir_get(&url).is_none(), "a listing is still there after it was dropped");
    let (a, b) = (url.join("a.log").unwrap(), url.join("b.log").unwrap());
    check(c.head(&url, &a).is_none(), "an availability is known before it was tested");
    let r = flag();
    check(c.head_set(&url, &a, r).ok() == Some(r), "an availability can't be saved");
    check(c.head(&url, &a) == Some(r), "another availability is returned");
    check(c.head(&url, &b).is_none() && c.head(&a, &b).is_none(), "the availability of another url is returned");
    check(c.remote_get(&url, &a).is_none(), "an availability is taken for a content");
    let o = other.join("a.log?b=1").unwrap();
    let (p, q) = (url.join("x?a=1").unwrap(), url.join("x?a=2").unwrap());
    check(c.head(&other, &o).is_none() && c.head(&url, &o).is_none(), "the availability of another url is returned");
    check(c.head_set(&url, &p, r).is_ok() && c.head(&url, &q).is_none(), "the availability of another query is returned");
    for (x, y) in [(&a, &o), (&p, &q)] {
        let t = match c.remote_add(&url, x, Remote { data: b"content".to_vec(), off: 0, fail: None }) {
            Ok(t) => t,
            Err(_) => fail("the cache can't be used"),
        };
        check(drain(t, 1000).is_ok() && c.remote_get(&url, x).is_some(), "a complete transfer is not cached");
        check(c.remote_get(&url, y).is_none(), "the content of another url is returned");
    }
    cover("listing");
}

static mut HITS: Vec<String> = Vec::new();
static mut BODY: Vec<u8> = Vec::new();
static mut MODE: usize = 0;
#[allow(static_mut_refs)]
fn serve(_: Method, url: &Url) -> Option<Reply> {
    unsafe {
        HITS.push(url.as_str().to_string());
        let b = BODY.clone();
        match MODE {
            0 => Some(Reply { url: url.clone(), status: 200, body: vec![Some(b[..2].to_vec()), Some(b[2..].to_vec())] }),
            1 => None,
            2 => Some(Reply { url: url.clone(), status: [404, 500, 403, 503][choose(4)], body: vec![Some(b"<html>error page</html>\n".to_vec())] }),
            _ => Some(Reply { url: url.clone(), status: 200, body: vec![Some(b[..2].to_vec()), None] }),
        }
    }
}
fn fetch(prefix: usize, url: &Url) -> Result<Vec<u8>, ()> {
    match Source::url_open(prefix, url) {
        Err(_) => Err(()),
        Ok(r) => drain(r, 1000).map_err(|_| ()),
    }
}
#[allow(static_mut_refs)]
fn open(cache: bool) {
    if cache {
        symos::set_env("LOGREDUCE_CACHE", "1");
    }
    reqwest::set_handler(serve);
    let mut data = vec(2);
    data.extend_from_slice(b" line\nother line\n");
    unsafe {
        BODY = data.clone();
        MODE = choose(4);
    }
    let (url, prefix) = [
        ("http://h.org/a.log", 0),
        ("http://h.org/logs/a.log", 18),
        ("http://h.org/a.log", 13),
        ("http://a-host-with-a-long-name.example.org/logs/94/22894/1/a.log", 58),
    ][choose(4)];
    let url = u(url);
    match fetch(prefix, &url) {
        Ok(v) => {
            check(unsafe { MODE } == 0, "a failed download is taken for the content");
            check(v.len() == data.len() && same(&v, &data), "what is read is not what the server sent");
        }
        Err(()) => check(unsafe { MODE } != 0, "a successful download fails"),
    }
    unsafe { HITS.clear() };
    let failed = unsafe { std::mem::replace(&mut MODE, 0) } != 0;
    // once more, the server being fine
    match fetch(prefix, &url) {
        Ok(v) => check(v.len() == data.len() && same(&v, &data), "what is read after a failure is not what the server sent"),
        Err(()) => fail("a failed download breaks the next ones"),
    }
    let hits = unsafe { HITS.len() };
    if cache && !failed {
        check(hits == 0, "a cached content is downloaded again");
        cover("cached");
    } else {
        check(hits == 1, "a content that is not cached is not downloaded");
        cover("downloaded");
    }
    if failed {
        cover("failed");
    }
    if !cache {
        check(symos::files().is_empty(), "something is stored though the cache is disabled");
    }
}

pub fn run(arg: u64) {
    match arg {
        0 => transfer(1),
        10 => transfer(3),
        1 => listing(),
        2 => open(true),
        3 => open(false),
        4 => crate::zuul::again(),
        _ => fail("no such case"),
    }
}
