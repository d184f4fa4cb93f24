//! C08/C09: the tokenizer over symbolic words.
use logreduce_tokenizer::process;
use symrt::*;

const DIGIT: &[u8] = b"0123456789";
const HEX: &[u8] = b"0123456789abcdef";
const ALNUM: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const B64: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+";
const LETTER: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

fn warm() {
    for l in ["warm up-some 42 words [x] a=b c/d e|f (g) aaaa-bbbb-cccc-dddd", "sha256:x http://x == refs/x", "zzzz[42] zz$zzz kkkk=12 zzzz-yyyy-xxxx-wwww-vvvv uuuu12 key=zz"] {
        let _ = process(l);
    }
}

fn text(v: Vec<u8>) -> String {
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => kill(),
    }
}

/// what every result satisfies: no digit of the line survives (but in the name of the base64 token)
fn no_digits(out: &str) {
    let rest = out.replace("%BASE64", "");
    let mut bad = false;
    for b in rest.as_bytes() {
        bad |= (*b >= b'0') & (*b <= b'9');
    }
    check(!bad, "a digit of the line survives");
}

/// any short line over the characters the tokenizer looks at
fn total(n: usize, alpha: &[u8], wide: bool) {
    let mut v = vec![];
    for _ in 0..n {
        match if wide { choose(3) } else { 0 } {
            0 => v.extend_from_slice(&over(1, alpha)),
            1 => v.extend_from_slice("é".as_bytes()),
            _ => v.extend_from_slice("\u{2028}".as_bytes()),
        }
    }
    let s = text(v);
    let line = format!("wxyz {}", s);
    let out = process(&line);
    no_digits(&out);
    let again = process(&line);
    check(same(out.as_bytes(), again.as_bytes()), "the result is not a function of the line");
    check(out.starts_with("wxyz") || out == "%GL_FILTER", "a leading ordinary word is lost");
}

/// digits anywhere in short words
fn digits(n: usize) {
    let v = over(n, b"0123.-:/=[]_zyG");
    let line = format!("wxyz {}", text(v));
    let out = process(&line);
    no_digits(&out);
}

/// `?` is a symbolic byte of the class: the line tokenizes as with the reference value
fn volatile(kind: usize) {
    // (template, alphabet, another value)
    let kinds: &[(&str, &[u8], &str)] = &[
        ("wxyz 20??-??-?? ??:??:??.??? done", DIGIT, "wxyz 2017-06-24 02:52:17.732 done"),
        ("wxyz ??.???.??.? port ????? done", DIGIT, "wxyz 10.100.11.3 port 65535 done"),
        ("wxyz ??:??:??:??:??:?? done", HEX, "wxyz fa:16:3e:94:88:3f done"),
        ("wxyz 0x???????? done", HEX, "wxyz 0xdeadbeef done"),
        ("wxyz ????????-????-????-????-???????????? done", HEX, "wxyz b932e095-6706-4f5a-bd75-241c407a9d01 done"),
        ("wxyz [req-????????-????-????-????-???????????? ] done", HEX, "wxyz [req-b932e095-6706-4f5a-bd75-241c407a9d01 ] done"),
        ("wxyz sha256:???????????????? done", HEX, "wxyz sha256:42aabbccddeeff00 done"),
        ("wxyz md5:???????????????? done", HEX, "wxyz md5:d41d8cd98f00b204 done"),
        ("wxyz https://????.???/?? done", ALNUM, "wxyz https://host.com/p1 done"),
        ("wxyz http://????:???? done", ALNUM, "wxyz http://host:8080 done"),
        ("wxyz /tmp/?????? done", ALNUM, "wxyz /tmp/xyZ123 done"),
        ("wxyz tmp???????? done", ALNUM, "wxyz tmpmh4nrjbd done"),
        ("wxyz refs/zuul/master/???????????? done", HEX, "wxyz refs/zuul/master/6546b192211a done"),
        ("wxyz systemd[?????]: done", DIGIT, "wxyz systemd[42421]: done"),
        ("wxyz token=???????????? done", ALNUM, "wxyz token=ASIA6CCDWXDO done"),
        ("wxyz OS_PASSWORD=???????????? done", ALNUM, "wxyz OS_PASSWORD=PobDt1cxalvf done"),
        ("wxyz secret:???????? done", ALNUM, "wxyz secret:xkkGdfgq done"),
        ("wxyz key=??:??:?? done", HEX, "wxyz key=01:02:ff done"),
        ("wxyz tap????????-?? done", HEX, "wxyz tap44302f40-82 done"),
        ("wxyz gAAAA?????????? done", ALNUM, "wxyz gAAAAabcDEF0123 done"),
        ("wxyz P????????????????????????? done", ALNUM, "wxyz PobDt1cxalvf40uv9Om5VTNkwz done"),
        ("wxyz P????????????????????== done", ALNUM, "wxyz PobDt1cxalvf40uv9Om5V== done"),
        ("wxyz <?.????.?> done", DIGIT, "wxyz <0.4375.0> done"),
        ("wxyz image??.??-build??? done", DIGIT, "wxyz image13.5-build201 done"),
        ("wxyz count=??? done", DIGIT, "wxyz count=512 done"),
        ("wxyz path/????/kkkk??? done", DIGIT, "wxyz path/1234/kkkk999 done"),
        ("wxyz hhhh@??.??.??.?? done", DIGIT, "wxyz hhhh@10.11.12.13 done"),
        ("wxyz DHCPOFFER(??.??.??.??) done", DIGIT, "wxyz DHCPOFFER(10.11.12.13) done"),
        ("?? wxyz ???? done ??????", DIGIT, "42 wxyz 1234 done 987654"),
        // values of another length
        ("wxyz disk_?????????????????????? done", DIGIT, "wxyz disk_7 done"),
        ("wxyz ???????????????????????????????????? done", DIGIT, "wxyz 7 done"),
        ("wxyz size=????????????????????? done", DIGIT, "wxyz size=7 done"),
        ("wxyz sshd[????????]: done", DIGIT, "wxyz sshd[1]: done"),
        ("wxyz fe80::????:????:????:???? done", HEX, "wxyz ::1 done"),
        ("wxyz 20??-??-??T??:??:??.???Z done", DIGIT, "wxyz 2022-01-25T14:09:24.422Z done"),
        ("wxyz SHA512:???????????? done", ALNUM, "wxyz md5:x done"),
        ("wxyz ftp://????/?? done", ALNUM, "wxyz http://a done"),
        ("wxyz SSH://????/?? done", ALNUM, "wxyz https://a/b/c/d done"),
        ("wxyz /var/tmp/???? done", ALNUM, "wxyz /tmp/a done"),
        ("wxyz kkkk/tmp/???? done", ALNUM, "wxyz kkkk/tmp/a done"),
        ("wxyz repos/????????? done", HEX, "wxyz repos/a/b done"),
        ("wxyz P??????..P?????? done", ALNUM, "wxyz Pabcdef..P123456 done"),
        ("wxyz AUTH_???????? done", ALNUM, "wxyz AUTH_1 done"),
        ("wxyz AAAAq??????? done", ALNUM, "wxyz AAAAq1 done"),
        ("wxyz txz???????? done", ALNUM, "wxyz txz1 done"),
        ("wxyz .eJw1???????????????????????????????????????????????????????????????? done", ALNUM, "wxyz .eJw1j81OwkAURl-lmTVNZu78dbojUSEKagQB3TTTuXcQkBZKSUTCu1NiXH6b851zZkU4NLFo6w1VLGe_65-3wcOorz5n done"),
        ("wxyz P???????????????????????????????????? done", B64, "wxyz PobDt1cxalvf40uv9Om5VTNkw done"),
        ("wxyz '????????-????-????-????-????????????', done", HEX, "wxyz \"b932e095-6706-4f5a-bd75-241c407a9d01\" done"),
        ("wxyz kkkk: ??????????? done", DIGIT, "wxyz kkkk: 1 done"),
        ("wxyz ?????:?????/kkkk done", DIGIT, "wxyz 1:2/kkkk done"),
    ];
    if kind >= kinds.len() {
        fail("no such kind")
    }
    let (t, a, r) = kinds[kind];
    let line = template(t, a);
    let want = process(r);
    let got = process(&line);
    check(got.len() == want.len(), "two values of the same kind do not tokenize alike");
    check(same(got.as_bytes(), want.as_bytes()), "two values of the same kind do not tokenize alike");
    check(got != "%GL_FILTER" && got.contains("wxyz") && got.contains("done"), "the words around a volatile value are lost");
    no_digits(&got);
    cover("same tokens");
}

/// the names of days and months, in any case
fn dates() {
    const DATES: &[&str] = &[
        "sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "january", "february", "march", "april", "may", "june",
        "july", "august", "september", "october", "november", "december",
    ];
    let w = DATES[choose(DATES.len())].as_bytes();
    let mut line = b"wxyz ".to_vec();
    for (i, b) in w.iter().enumerate() {
        line.push(if i < 2 || i + 1 == w.len() { over(1, &[*b, b.to_ascii_uppercase()])[0] } else { *b });
    }
    line.extend_from_slice(&over(1, b" ,;)"));
    line.extend_from_slice(b" done");
    let out = process(&text(line));
    let other = process("wxyz sunday done");
    check(out.len() == other.len() && same(out.as_bytes(), other.as_bytes()), "a day or a month makes another line");
    check(out.starts_with("wxyz ") && out.ends_with(" done"), "the words around a date are lost");
    cover("same tokens");
}

/// the value of a secret, with its key in any case, alone or as a part of the key
fn secrets(n: usize) {
    const KEYS: &[&str] = &["id", "key", "ref", "token", "secret", "password"];
    let k = KEYS[choose(KEYS.len())].as_bytes();
    let pre: &[u8] = [&b""[..], b"uu", b"OS_", b"my_"][choose(4)];
    let mut key = pre.to_vec();
    for (i, b) in k.iter().enumerate() {
        key.push(if i < 2 || i + 1 == k.len() { over(1, &[*b, b.to_ascii_uppercase()])[0] } else { *b });
    }
    key.extend_from_slice([&b""[..], b"_yy"][choose(2)]);
    key.push(over(1, b"=:")[0]);
    let mut line = b"wxyz ".to_vec();
    line.extend_from_slice(&key);
    let mut other = line.clone();
    line.extend_from_slice(&over(n, b"0129abfghzABGHZ._-"));
    line.extend_from_slice(b" done");
    other.extend_from_slice(b"ASIA6CCDWXDO done");
    let a = process(&text(line));
    let b = process(&text(other));
    check(a.len() == b.len(), "the value of a secret makes another line");
    check(same(a.as_bytes(), b.as_bytes()), "the value of a secret makes another line");
    cover("same tokens");
}

const ERRORS: &[&str] = &[
    "error", "fatal", "failure", "failed", "warning", "err", "fail", "warn", "denied", "assert", "assertion", "non-zero", "exception",
    "traceback",
];

/// an error word in any case, quoted or punctuated in any usual way
fn emphasis(word: usize) {
    let w = ERRORS[word].as_bytes();
    let mut v = vec![];
    for b in w {
        if b.is_ascii_alphabetic() && (v.len() < 3 || v.len() + 1 == w.len()) {
            v.push(over(1, &[*b, b.to_ascii_uppercase()])[0]);
        } else {
            v.push(*b);
        }
    }
    let mut line = b"wxyz ".to_vec();
    let deco = choose(3);
    if deco > 0 {
        line.extend_from_slice(&over(1, b"'\",;([{<"));
    }
    line.extend_from_slice(&v);
    if deco > 1 {
        line.extend_from_slice(&over(1, b"'\",;)]}>"));
    }
    line.extend_from_slice(b" done");
    let out = process(&text(line));
    let mut want = b"wxyz ".to_vec();
    for s in [" ", "%A ", "%B ", "%C ", "%D "] {
        want.extend_from_slice(&v);
        want.extend_from_slice(s.as_bytes());
    }
    want.extend_from_slice(b"done");
    check(out.len() == want.len(), "an error word is not kept and emphasised");
    check(same(out.as_bytes(), &want), "an error word is not kept and emphasised");
    cover("emphasised");
}

/// error words attached to something else are still emphasised
fn attached(word: usize) {
    let w = ERRORS[word];
    let forms: &[(&str, &str)] = &[("result: ", ""), ("result=", ""), ("kkkk/", ""), ("", ":"), ("", "|kkkk"), ("kkkk|", ""), ("(", ")"), ("kkkk@", "")];
    let (a, b) = forms[choose(forms.len())];
    if w.contains('-') && (a.contains(|c| c == '|' || c == '@') || b.contains('|')) {
        kill();
    }
    let c = over(1, b"ghijk")[0] as char;
    let out = process(&format!("wxyz {}{}{} done{}", a, w, b, c));
    for s in ["%A", "%B", "%C", "%D"] {
        check(out.contains(&format!("{}{}", w, s)), "an attached error word is not emphasised");
    }
}

/// Is this word of letters one the tokenizer masks?  (dates, errors, hex-like, cookies, temporary names)
fn special(w: &[u8]) -> bool {
    const DATES: &[&str] = &[
        "sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "january", "february", "march", "april", "may", "june",
        "july", "august", "september", "october", "november", "december",
    ];
    let lower: Vec<u8> = w.iter().map(|b| b | 0x20).collect();
    let any = |l: &[&str]| l.iter().fold(false, |r, x| r | (x.len() == w.len() && same(x.as_bytes(), &lower)));
    let pre = |p: &[u8]| w.len() >= p.len() && same(&w[..p.len()], p);
    let mut hex = true;
    for b in w {
        hex &= ((*b >= b'a') & (*b <= b'f')) | ((*b >= b'A') & (*b <= b'F')) | (*b == b'x') | (*b == b'Z');
    }
    hex | any(DATES) | any(ERRORS)
        | pre(b"gAAAA") | pre(b"AAAA") | (pre(b"tx") & (w[2] >= b'a') & (w[2] <= b'z')) | pre(b"tap") | pre(b"tmp")
}

/// an ordinary word is kept as it is, so that another word there makes another line
fn ordinary(n: usize, form: usize) {
    let w = over(n, LETTER);
    assume(!special(&w));
    if form == 2 {
        // the value of a key that names an identifier is masked
        let lower: Vec<u8> = w.iter().map(|b| b | 0x20).collect();
        let mut key = false;
        for k in ["id", "key", "ref", "region", "token", "secret", "password"] {
            for at in lower.windows(k.len()) {
                key |= same(at, k.as_bytes());
            }
        }
        assume(!key);
    }
    let ws = text(w.clone());
    let (line, want) = match form {
        0 => (format!("wxyz {} done", ws), format!("wxyz {} done", ws)),
        1 => (format!("wxyz '{}', done", ws), format!("wxyz {} done", ws)),
        2 => (format!("wxyz {}: done", ws), format!("wxyz {}%EQ done", ws)),
        3 => (format!("wxyz gggg/{} done", ws), format!("wxyz gggg/ {} done", ws)),
        4 => (format!("wxyz gggg-{} done", ws), format!("wxyz gggg- {} done", ws)),
        5 => (format!("wxyz gggg={} done", ws), format!("wxyz gggg%EQ {} done", ws)),
        6 => (format!("wxyz gggg|{} done", ws), format!("wxyz gggg| {} done", ws)),
        7 => (format!("wxyz gggg({}) done", ws), format!("wxyz gggg {} done", ws)),
        8 => (format!("wxyz {}42 done", ws), format!("wxyz {}N done", ws)),
        9 => (format!("wxyz {}[42] done", ws), format!("wxyz {}%PID done", ws)),
        _ => (format!("wxyz {}.log done", ws), format!("wxyz {}.log done", ws)),
    };
    let out = process(&line);
    check(out.len() == want.len(), "an ordinary word is not kept");
    check(same(out.as_bytes(), want.as_bytes()), "an ordinary word is not kept");
    cover("kept");
}

/// the amount and kind of blanks between and around words does not matter
fn blanks(n: usize) {
    let mut v = vec![];
    let w: [&[u8]; 3] = [b"wxyz", b"vvvv", b"done"];
    let blank = |v: &mut Vec<u8>, least: usize| {
        for _ in 0..least + choose(n) {
            v.extend_from_slice(&over(1, b" \t"));
        }
    };
    blank(&mut v, 0);
    for (i, x) in w.iter().enumerate() {
        if i > 0 {
            blank(&mut v, 1);
        }
        v.extend_from_slice(x);
    }
    blank(&mut v, 0);
    v.extend_from_slice(&over(1, b" \t\r"));
    let out = process(&text(v));
    check(out == "wxyz vvvv done", "blanks change the tokens");
}

/// a very long word with many separators: bounded stack
fn deep(n: usize) {
    let sep = over(1, b"/-|@=")[0];
    let mut v = b"wxyz ".to_vec();
    for _ in 0..n {
        v.extend_from_slice(b"gg");
        v.push(sep);
    }
    let out = process(&text(v));
    check(out.starts_with("wxyz"), "a leading ordinary word is lost");
}

/// lines that only resemble the noise that is dropped as a whole: the ordinary word stays
fn resembling(n: usize) {
    const LINES: &[&str] = &[
        "wxyz GET /@ HTTP/1.1 done",
        "wxyz GET / HTTP/1.0 @ done",
        "wxyz POST / HTTP/1.1 @ done",
        "* kkkk: hhhh @",
        "wxyz * kkkk: hhhh.gggg @ done",
        "wxyz * kkkk @ hhhh",
        "Trying another mirror @",
        "wxyz ovs-ofctl gggg @ done",
        "wxyz ovs-ofctl gggg @ shows done",
        "wxyz ovs-vsctl gggg @ show done",
        "wxyz iptables -A @ -j done",
        "wxyz iptables -A @ -List done",
        "wxyz nftables -A @ -L done",
        "wxyz iptables @ done",
        "^+ ntpp @ done",
        "^+ ntpph @ done",
        "wxyz ^+ ntpphost 2 @ done",
        "^ ntpphost 2 @ done",
        "hello>33 @ done",
        "wxyz abc>33 @ done",
        "abc> @ done",
        "++ echo @ done",
        "+ echo @ done",
        "wxyz ++ echo @",
        "++ export @",
        "| @ |",
        "wxyz |        =+ooo=+.o| @",
        "|        =+ooo=+.o| @",
        "|        =+oooooo=+.o| @ |",
    ];
    let t = LINES[choose(LINES.len())];
    let w = over(n, LETTER);
    assume(!special(&w));
    assume(n != 4 || !same(&w, b"show"));
    let ws = text(w);
    let out = process(&t.replace('@', &ws));
    check(out != "%GL_FILTER", "a line is dropped as if it were noise");
    let o = out.as_bytes();
    let mut found = false;
    for at in o.windows(n) {
        found |= same(at, ws.as_bytes());
    }
    check(found, "an ordinary word is not kept");
    cover("kept");
}

/// a line of many words: the last ones count like the first ones
fn long(sizes: &[usize], what: usize) {
    let n = sizes[choose(sizes.len())];
    let mut base = String::new();
    for i in 0..n {
        base.push_str(&format!("gh{}{}k ", (b'g' + (i % 17) as u8) as char, (b'g' + (i / 17 % 17) as u8) as char));
    }
    if what == 0 {
        let w = over(4, b"ghijklmnopqrsuvyz");
        assume(!special(&w));
        let ws = text(w.clone());
        let out = process(&format!("{}{} done", base, ws));
        let want = format!("{}{} done", base, ws);
        check(out.len() == want.len(), "an ordinary word is not kept");
        check(same(out.as_bytes(), want.as_bytes()), "an ordinary word is not kept");
    } else {
        let out = process(&format!("{}{} done", base, template("20??-??-?? kkkk??? error", DIGIT)));
        let want = process(&format!("{}{} done", base, "2017-06-24 kkkk7 error"));
        check(out.len() == want.len(), "two values of the same kind do not tokenize alike");
        check(same(out.as_bytes(), want.as_bytes()), "two values of the same kind do not tokenize alike");
        check(out.starts_with(&base) && out.contains("error%A") && out.ends_with("done"), "the words around a volatile value are lost");
        no_digits(&out);
    }
    cover("long line");
}

fn run(arg: u64) {
    warm();
    match arg {
        40 => long(&[30, 60, 130, 1000], 1),
        140 => long(&[30, 60, 130, 1000], 0),
        141 => resembling(4),
        142 => resembling(6),
        1 => total(3, b"u\"'(){}<>[]\\=:/-|@ %.0a_g", true),
        2 => total(4, b"\"([\\=:/-|@ 0agu", false),
        3 => digits(4),
        4 => blanks(2),
        5 => deep(100),
        8 => dates(),
        9 => secrets(6),
        10..=38 => volatile(arg as usize - 10),
        200..=220 => volatile(arg as usize - 200 + 29),
        50..=63 => emphasis(arg as usize - 50),
        70..=83 => attached(arg as usize - 70),
        100..=110 => ordinary(5, arg as usize - 100),
        111 => ordinary(4, 0),
        112 => ordinary(8, 0),
        113 => ordinary(13, 0),
        114 => ordinary(24, 0),
        115 => ordinary(27, 10),
        116 => ordinary(12, 3),
        117 => ordinary(24, 5),
        118 => ordinary(22, 7),
        119 => ordinary(24, 2),
        133 => ordinary(24, 4),
        // --- thorough
        6 => total(5, b"\"([\\=:/-|@ 0agu", false),
        7 => digits(6),
        131 => ordinary(18, 0),
        132 => ordinary(18, 5),
        120..=130 => ordinary(7, arg as usize - 120),
        _ => fail("no such case"),
    }
}
entry!(run);
