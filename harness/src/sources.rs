//! C13: the sources of a path: every log file of a directory, once, read whole and decompressed.
use logreduce_model::{Content, IndexName, Source};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use symos::Op;
use symrt::*;

pub fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    same(a, b)
}

fn tree(n: usize, slash: bool) {
    let mut want: Vec<Vec<u8>> = vec![];
    let mut broken = false;
    symos::mkdirs("/vfs/t");
    for i in 0..n {
        let mut f = |p: Vec<u8>| {
            symos::file(&p, if i == 0 { b"" } else { b"x\n" });
            want.push(p)
        };
        match choose(11) {
            9 => f(format!("/vfs/t/.hidden{}.log", i).into_bytes()),
            10 => {
                f(format!("/vfs/t/q{}/r/s/t/u/deep.log", i).into_bytes());
                if flag() {
                    symos::file(format!("/vfs/t/q{}/r/s/t/u/denied/x.log", i).as_bytes(), b"x");
                    broken = true;
                    cover("a deep directory that can't be read");
                }
            }
            0 => f(format!("/vfs/t/f{}.log", i).into_bytes()),
            1 => f(format!("/vfs/t/d{}/sub/inside.log", i).into_bytes()),
            2 => symos::link(format!("/vfs/t/l{}", i).as_bytes()),
            3 => {
                let mut p = format!("/vfs/t/b{}.log", i).into_bytes();
                p[7] = 0xe9;
                f(p);
                cover("a name that is not UTF-8");
            }
            4 => symos::file(format!("/vfs/t/image{}.png", i).as_bytes(), b"x"),
            5 => {
                symos::file(format!("/vfs/t/denied{}/x.log", i).as_bytes(), b"x");
                broken = true;
                cover("a directory that can't be read");
            }
            6 => symos::mkdirs(&format!("/vfs/t/empty{}", i)),
            7 => f(format!("/vfs/t/caf\u{e9}-{}.log", i).into_bytes()),
            _ => {
                f(format!("/vfs/t/m{}.log", i).into_bytes());
                f(format!("/vfs/t/m{}.d/m.log", i).into_bytes());
                symos::file(format!("/vfs/t/m{}.d/etc/passwd", i).as_bytes(), b"x");
            }
        }
    }
    symos::set_fault(Some(|op, p, n| {
        if op == Op::ReadDir && p.windows(7).any(|w| w == b"/denied") {
            Err(symos::EACCES)
        } else {
            Ok(n)
        }
    }));
    let path = if slash { "/vfs/t/" } else { "/vfs/t" };
    let content = match Content::from_path(Path::new(path)) {
        Ok(c @ Content::Directory(_)) => c,
        _ => fail("a directory is not taken for one"),
    };
    match content.get_sources() {
        Err(_) => {
            check(broken || want.is_empty(), "the sources of a readable directory can't be listed");
        }
        Ok(got) => {
            check(!broken, "a directory that can't be read is silently left out");
            let mut paths: Vec<Vec<u8>> = vec![];
            for s in &got {
                use std::os::unix::ffi::OsStrExt;
                let p = match s {
                    Source::Local(_, p) => p.as_os_str().as_bytes().to_vec(),
                    _ => fail("a local file is not local"),
                };
                check(want.contains(&p), "a source that is not a log file of the directory");
                check(!paths.contains(&p), "a source is listed twice");
                // the name is relative to the directory
                let rel = s.get_relative();
                if std::str::from_utf8(&p).is_ok() {
                    check(eq(rel.trim_start_matches('/').as_bytes(), &p[7..]), "the relative name of a source is wrong");
                }
                let _ = format!("{}", s);
                let _ = s.is_json();
                let _ = IndexName::from_source(s);
                paths.push(p);
            }
            check(paths.len() == want.len(), "a log file of the directory is left out");
            let groups = match Content::group_sources(&[content]) {
                Ok(g) => g,
                Err(_) => fail("the sources can't be grouped"),
            };
            let n: usize = groups.values().map(|v| v.len()).sum();
            check(n == want.len(), "a source is not in exactly one group");
            cover("listed");
        }
    }
}

/// what is ignored depends on the whole path of a file, also on where the directory is
fn base() {
    let (dir, f, ignored) = [
        ("/vfs/etc/app", "my.log", true),
        ("/vfs/etc", "app/my.log", true),
        ("/vfs/etcx/app", "my.log", false),
        ("/vfs/app", "etc/my.log", true),
        ("/vfs/app", "etc", false),
        ("/vfs/local", "creds", true),
        ("/vfs/locals", "creds", false),
        ("/vfs/pacemaker", "authkey", true),
        ("/vfs/x.conf", "my.log", false),
        ("/vfs/x.png", "y.tar/my.log", false),
        ("/vfs/x", "y.png", true),
    ][choose(11)];
    symos::file(format!("{}/{}", dir, f).as_bytes(), b"x\n");
    let other = template("/s????.log", b"abcdefghijklmnopqrstuvwxyz0123456789-_ ~#");
    let more = flag();
    if more {
        symos::file(format!("{}{}", dir, other).as_bytes(), b"x\n");
    }
    let content = Content::from_path(Path::new(dir)).unwrap_or_else(|_| fail("a directory is not taken for one"));
    let below = dir.starts_with("/vfs/etc/") || dir == "/vfs/etc";
    let want = if ignored { 0 } else { 1 } + if more && !below { 1 } else { 0 };
    match content.get_sources() {
        Ok(v) => check(v.len() == want, "not exactly the log files of a directory are its sources"),
        Err(_) => check(want == 0, "the sources of a readable directory can't be listed"),
    }
    cover("placed");
}

fn read_all(p: &str) -> Result<Vec<u8>, ()> {
    let mut r = Source::file_open(Path::new(p)).map_err(|_| ())?;
    let mut v = vec![];
    loop {
        let mut b = [0u8; 16];
        match r.read(&mut b) {
            Ok(0) => return Ok(v),
            Ok(n) => v.extend_from_slice(&b[..n]),
            Err(_) => return Err(()),
        }
    }
}

pub fn run(arg: u64) {
    match arg {
        0 => tree(2, flag()),
        10 => tree(3, flag()),
        1 => {
            symos::mkdirs("/vfs/t/dir");
            symos::file(b"/vfs/t/a.log", b"x\n");
            let prev = flag();
            if prev {
                symos::file(b"/vfs/t/a.log.0", b"y\n");
            }
            match Content::from_path(Path::new("/vfs/t/a.log")) {
                Ok(Content::File(Source::Local(0, p))) => check(p == PathBuf::from("/vfs/t/a.log"), "a file is taken for another"),
                _ => fail("a file is not taken for one"),
            }
            check(matches!(Content::from_path(Path::new("/vfs/t/dir")), Ok(Content::Directory(_))), "a directory is not taken for one");
            check(Content::from_path(Path::new("/vfs/t/missing")).is_err(), "a path that does not exist is accepted");
            let c = Content::from_path(Path::new("/vfs/t/a.log")).unwrap();
            match c.discover_baselines() {
                Ok(b) => {
                    check(prev, "a baseline that does not exist is used");
                    check(
                        b.len() == 1 && b[0] == Content::File(Source::Local(0, PathBuf::from("/vfs/t/a.log.0"))),
                        "the previous log is not the baseline",
                    );
                    cover("discovered");
                }
                Err(_) => check(!prev, "the previous log is not found"),
            }
            check(Content::from_path(Path::new("/vfs/t/dir")).unwrap().discover_baselines().is_err(), "a directory has a baseline");
        }
        2 => {
            // what is read is the content of the file, decompressed when it is compressed
            let n = choose(4);
            let mut data = vec(n);
            data.extend_from_slice(b" a line that is longer than the buffer\n");
            let name = ["/vfs/t/x.log", "/vfs/t/x.log.gz", "/vfs/t/x.gz", "/vfs/t/x", "/vfs/t/x.gz.log", "/vfs/t/gz"][choose(6)];
            let packed = name.ends_with(".gz");
            let raw = if packed && flag() {
                // several compressed logs one after the other
                let at = [1, data.len() / 2, data.len()][choose(3)];
                cover("appended");
                [gz(&data[..at]), gz(&data[at..])].concat()
            } else if packed {
                gz(&data)
            } else {
                data.clone()
            };
            symos::file(name.as_bytes(), &raw);
            match read_all(name) {
                Ok(v) => check(v.len() == data.len() && eq(&v, &data), "what is read is not the content of the file"),
                Err(_) => fail("a file can't be read"),
            }
            if packed {
                cover("compressed");
            } else {
                cover("plain");
            }
        }
        3 => {
            // a damaged compressed file is reported, and so is a file that fails
            let data = b"some line\nsome other line\n";
            let z = gz(data);
            let cut = 1 + choose(z.len());
            symos::file(b"/vfs/t/x.log.gz", &z[..z.len() - cut]);
            check(read_all("/vfs/t/x.log.gz").is_err(), "a truncated compressed file is taken for a complete one");
            symos::file(b"/vfs/t/y.log.gz", b"this is not compressed");
            check(read_all("/vfs/t/y.log.gz").is_err(), "a file that is not compressed is taken for one");
            check(read_all("/vfs/t/missing.log").is_err(), "a missing file is taken for an empty one");
            symos::file(b"/vfs/t/z.log", data);
            symos::set_fault(Some(|op, _, n| if op == Op::Read && choose(2) == 1 { Err(symos::EIO) } else { Ok(n) }));
            if let Ok(v) = read_all("/vfs/t/z.log") {
                check(eq(&v, data), "a failed read is taken for the end of the file");
            } else {
                cover("failed");
            }
        }
        4 => remote(),
        5 => base(),
        _ => fail("no such case"),
    }
}

static mut DOWN: usize = usize::MAX;
static mut REQUESTS: usize = 0;
static mut ENTRIES: Vec<&str> = Vec::new();
const DIR: &str = "http://h.org/logs/12/";
#[allow(static_mut_refs)]
fn serve(_: reqwest::Method, url: &url::Url) -> Option<reqwest::Reply> {
    unsafe {
        REQUESTS += 1;
        if REQUESTS > DOWN {
            DOWN = usize::MAX;
            return match choose(3) {
                0 => None,
                1 => Some(reqwest::Reply { url: url.clone(), status: 503, body: vec![Some(b"<a href=\"ghost.log\">ghost.log</a>".to_vec())] }),
                _ => Some(reqwest::Reply { url: url.clone(), status: 200, body: vec![Some(b"<a href=\"ghost".to_vec()), None] }),
            };
        }
        let url = if url.as_str() == DIR.trim_end_matches('/') { url::Url::parse(DIR).unwrap() } else { url.clone() };
        let u = url.as_str();
        let body = if u == DIR {
            ENTRIES.iter().map(|e| format!("<a href=\"{}\">{}</a>\n", e, e)).collect::<String>()
        } else if u.ends_with('/') {
            String::from("<a href=\"in.log\">in.log</a>")
        } else {
            format!("this is {}\n", &u[DIR.len()..])
        };
        Some(reqwest::Reply { url: url.clone(), status: 200, body: vec![Some(body.into_bytes())] })
    }
}
/// a remote directory: every log file of it, once, whatever failed before
#[allow(static_mut_refs)]
fn remote() {
    reqwest::set_handler(serve);
    threadpool::set_budget(1);
    if flag() {
        symos::set_env("LOGREDUCE_CACHE", "1");
    }
    let mut want: Vec<&str> = vec![];
    for i in 0..3 {
        let (entry, files): (&str, &[&str]) = match choose(5) {
            0 => ("", &[]),
            1 => (["a.log", "b.log", "c.log"][i], &["a.log", "b.log", "c.log"][i..i + 1]),
            2 => (["d/", "e/", "f/"][i], &["d/in.log", "e/in.log", "f/in.log"][i..i + 1]),
            3 => (["a.png", "b.png", "c.png"][i], &[]),
            _ => (["g%20h.log", "i+j.log", "k.log.gz"][i], &["g%20h.log", "i+j.log", "k.log.gz"][i..i + 1]),
        };
        if !entry.is_empty() {
            unsafe { ENTRIES.push(entry) };
        }
        want.extend_from_slice(files);
    }
    // the server adds the last slash of a directory, as for the logs of a build
    let content = if flag() {
        cover("without the last slash");
        Content::Directory(Source::Remote(0, url::Url::parse(DIR.trim_end_matches('/')).unwrap()))
    } else {
        match Content::from_url(url::Url::parse(DIR).unwrap()) {
            Ok(c @ Content::Directory(_)) => c,
            _ => fail("a remote directory is not taken for one"),
        }
    };
    let fails = flag();
    if fails {
        unsafe { DOWN = choose(2) };
        let r = content.get_sources();
        if unsafe { DOWN } == usize::MAX {
            check(r.is_err(), "a remote directory that can't be listed is taken for an empty or a partial one");
            cover("a listing fails");
        }
        unsafe { DOWN = usize::MAX };
    }
    for _ in 0..2 {
        let got = match content.get_sources() {
            Ok(s) => s,
            Err(_) => {
                check(want.is_empty(), "a remote directory can't be listed");
                return;
            }
        };
        let mut names = vec![];
        for s in &got {
            let rel = s.get_relative();
            check(want.contains(&rel), "a source that is not a log file of the remote directory");
            check(!names.contains(&rel), "a source is listed twice");
            names.push(rel);
            let (prefix, url) = match s {
                Source::Remote(p, u) => (*p, u),
                _ => fail("a remote file is not remote"),
            };
            check(url.as_str() == format!("{}{}", DIR, rel), "a source has the wrong url");
            let mut text = String::new();
            match Source::url_open(prefix, url) {
                Ok(mut r) => check(r.read_to_string(&mut text).is_ok(), "a remote file can't be read"),
                Err(_) => fail("a remote file can't be opened"),
            }
            check(text == format!("this is {}\n", rel), "what is read is not the content of the file");
        }
        check(names.len() == want.len(), "a log file of the remote directory is left out");
        cover("remote");
    }
}
