//! C12: which sources belong together, and which are ignored.
use logreduce_model::{Content, IndexName, Source};
use std::path::PathBuf;
use symrt::*;

const LOW: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
const DIG: &[u8] = b"0123456789";
const HEX: &[u8] = b"0123456789abcdef";

fn name(p: &str) -> String {
    IndexName::from_source(&Source::Local(0, PathBuf::from(p))).0
}
fn eq(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}
/// the suffixes of rotated and compressed logs
const SUFFIX: [&str; 12] =
    ["", ".?", ".??", ".gz", ".?.gz", ".??.gz", "-????????", "-????????.gz", ".????-??-??", ".????-??-??.gz", "_?", "_?.gz"];

fn kept(p: &str) -> bool {
    Content::File(Source::Local(0, PathBuf::from(p))).get_sources().is_ok()
}
const IGNORED: [&str; 30] = [
    ".ico", ".png", ".clf", ".tar", ".tar.bzip2", ".subunit", ".sqlite", ".db", ".bin", ".pcap.log.txt", ".eot", ".otf", ".woff", ".woff2",
    ".ttf", ".yaml", ".ini", ".conf", "job-output.json", "log-classify.json", "zuul-manifest.json", ".html", "cacerts", "local/creds",
    "pacemaker/authkey", "mysql/tc.log.txt", "corosync/authkey", "object.builder", "account.builder", "container.builder",
];
fn ends(p: &str, e: &str) -> bool {
    p.len() >= e.len() && eq(&p[p.len() - e.len()..], e)
}
fn ignored(p: &str) -> bool {
    let mut r = false;
    for e in IGNORED {
        r |= ends(p, e);
        r |= ends(p, &format!("{}.gz", e));
    }
    r
}

pub fn run(arg: u64) {
    match arg {
        0 => {
            let mut s = String::new();
            for _ in 0..4 {
                match choose(3) {
                    0 => s.push_str(&template("?", b"/.-_1")),
                    1 => s.push_str(&template("?", b"agzp?&%")),
                    _ => s.push('\u{e9}'),
                }
            }
            let n = name(&s);
            let again = name(&s);
            check(eq(&n, &again), "the name of a source is not a function of its path");
            cover("named");
        }
        1 => {
            let d = template("????", LOW);
            let b = template("????", LOW);
            let suffix = SUFFIX[choose(SUFFIX.len())];
            let s = template(suffix, DIG);
            let ext = [".log", ".txt", ""][choose(3)];
            let deep = if flag() { "logs/" } else { "" };
            let n = name(&format!("{}{}/{}{}{}", deep, d, b, ext, s));
            check(eq(&n, &format!("{}/{}{}", d, b, ext)), "a rotated or compressed log is not grouped with the log");
            if !s.is_empty() {
                cover("rotated");
            }
        }
        2 => {
            let t = ["node-?/w?rk?.log", "?/syslog", "??/a??b.txt", "x??/?.log", "a?/b-?-?.log.gz", "???/???"][choose(6)];
            let (a, b) = (template(t, DIG), template(t, DIG));
            check(eq(&name(&a), &name(&b)), "sources that differ only in numbers are not grouped");
            cover("numbers");
        }
        3 => {
            if flag() {
                let h = template("???????", HEX);
                check(eq(&name(&format!("job/{}/some.log", h)), "job/some.log"), "the hash of a build is not removed from the name");
                check(eq(&name(&format!("{}/some.log", h)), "some.log"), "the hash of a build is not removed from the name");
                cover("hash");
            } else {
                let h = template("ab?cdef", b"ghijklmnopqrstuvwxyz");
                check(eq(&name(&format!("job/{}/some.log", h)), &format!("{}/some.log", h)), "a directory is missing from the name");
                let g = template(["abc???", "?????", "????????", "?????????", "????????????"][choose(5)], b"abcdef");
                check(eq(&name(&format!("job/{}/some.log", g)), &format!("{}/some.log", g)), "a directory is missing from the name");
                cover("no hash");
            }
        }
        4 => {
            match choose(6) {
                4 => {
                    // a service without an id
                    let s = template("????", LOW);
                    let k = ["k8s_", "k8s", "pods_", "instance_"][choose(4)];
                    let suffix = template(SUFFIX[choose(6)], DIG);
                    let n = name(&format!("ctl/x/{}{}.log{}", k, s, suffix));
                    check(eq(&n, &name(&format!("ctl/x/{}{}.log", k, s))), "a rotated or compressed log is not grouped with the log");
                    let t = template("????", LOW);
                    if !same(s.as_bytes(), t.as_bytes()) {
                        check(!eq(&n, &name(&format!("ctl/x/{}{}.log", k, t))), "different logs are grouped");
                    }
                }
                5 => {
                    // the same file names elsewhere are ordinary ones
                    let s = template("???", b"abcdefghijklmno");
                    check(eq(&name(&format!("podx/{}-a.log", s)), &format!("podx/{}-a.log", s)), "a log is taken for one of a service");
                    check(eq(&name(&format!("xpod/{}-a.log", s)), &format!("xpod/{}-a.log", s)), "a log is taken for one of a service");
                    check(eq(&name(&format!("x/instance-{}.log", s)), &format!("x/instance-{}.log", s)), "a log is taken for one of a service");
                    check(eq(&name(&format!("x/mypvc-{}.log", s)), &format!("x/mypvc-{}.log", s)), "a log is taken for one of a service");
                }
                0 => {
                    let i = template("????", HEX);
                    check(
                        eq(&name(&format!("libvirt/qemu/instance-{}.log.txt.gz", i)), "qemu/instance"),
                        "the logs of virtual machines are not grouped",
                    );
                }
                1 => {
                    let (s, u) = (template("????", LOW), template("??-??", b"abcdef0123456789"));
                    check(eq(&name(&format!("ctl/pod/{}-{}.log", s, u)), &format!("pod/{}", s)), "the logs of a pod are not grouped");
                }
                2 => {
                    let (s, u) = (template("????", LOW), template("??-??", b"abcdef0123456789"));
                    check(eq(&name(&format!("ctl/x/k8s_{}-{}.log", s, u)), &format!("k8s_{}", s)), "the logs of a k8s service are not grouped");
                }
                _ => {
                    let u = template("??-??", b"abcdef0123456789");
                    check(eq(&name(&format!("ctl/x/pvc-{}.log", u)), "pvc"), "the logs of volumes are not grouped");
                }
            }
            cover("service");
        }
        5 => {
            let e = IGNORED[choose(IGNORED.len())];
            let i = choose(e.len());
            let mut p = String::from("logs/ab");
            p.push_str(&e[..i]);
            p.push_str(&template("?", b"abcdefghijklmnopqrstuvwxyz0123456789./-"));
            p.push_str(&e[i + 1..]);
            if flag() {
                p.push_str(".gz");
            }
            let k = kept(&p);
            let want = !ignored(&p);
            if k {
                cover("kept");
                check(want, "a file that is not a log is taken for one");
            } else {
                cover("ignored");
                check(!want, "a log file is ignored");
            }
        }
        6 => {
            let e = [".log", ".txt", ".log.gz", ".json", "", ".log.1", ".out", ".db.log", "-cacerts.log", ".yaml.log"][choose(10)];
            let p = format!("var/log/{}{}", template("?????", LOW), e);
            check(kept(&p), "a log file is ignored");
            let p = format!("home/{}/etc/{}{}", template("?", LOW), template("?", LOW), e);
            check(!kept(&p), "a system configuration file is taken for a log");
            cover("kept");
        }
        _ => fail("no such case"),
    }
}
