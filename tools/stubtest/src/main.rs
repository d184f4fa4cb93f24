//! Compares the stand-in with the real crate on random patterns and texts (not part of a check).
fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}
fn main() {
    let mut s = 88172645463325252u64;
    let src = ["/repo/tokenizer/src/tokenizer.rs", "/repo/httpdir/src/httpdir.rs"].map(|p| std::fs::read_to_string(p).unwrap()).join("\n");
    let _ = src;
    let fixed = [
        r"([ \t]|\\[nr])+", "GET / HTTP/1.1|\\* [a-zA-Z]+: [a-zA-Z0-9\\.-]*$|Trying other mirror.|ovs-ofctl .* (dump-ports|dump-flows|show)\\b|(ip|eb)tables .* -L\\b|(^\\^[+*-] [a-z0-9\\.>-]{5,} [0-9])|(^[a-f0-9s/]+>[0-9]+ )|(^\\+\\+ echo [^ ]+$)|(^[ '\",]*\\|.{17}\\|[ '\",]*$)",
        "([0-9]+\\.[0-9]+)|([0-9]+)", "(?i-u:^(error|fatal|err|warn)$)", r"^(:*[\[\]0-9a-fA-FxZ]+[:.-]*)+$", "^.+-.+-.+-.", "(?i:^(https|http|ftp|ssh)://)",
        "(?i:^(hash|sha|md)[0-9]*:)|\\.?[a-zA-Z0-9_+/-]{6,}?", r"^\w{3}\.\.\w{3}$", r#"<a href="([\\/a-zA-Z0-9][^"]+)">"#, "(?i:(id|key|ref))",
        r"(a|ab)(c|bcd)*d?", r"\bfoo\b", r"\Boo", "(?m)^a*$", "(a*?)(b{1,3})", "x*", "(?P<n>a+)(b)?", "[^a]|é", "(a|b|)+c?",
    ];
    let alpha: Vec<char> = "aabbccdd001. -:\\n/xXE\"<>[]%é=\tfo\n^+|".chars().collect();
    let pieces = ["<a href=\"", "\">", "foo", "http://", "sha2:", "error", "ErR", "ab.", "..", "\\n", "iptables - -L", "id", "00:", "+ echo "];
    let mut n = 0;
    for f in fixed {
        let a = regex::Regex::new(f).unwrap();
        let b = stub::Regex::new(f).unwrap();
        for _ in 0..20000 {
            let mut t = String::new();
            for _ in 0..rnd(&mut s) % 9 {
                if rnd(&mut s) % 5 == 0 {
                    t += pieces[rnd(&mut s) as usize % pieces.len()]
                } else {
                    t.push(alpha[rnd(&mut s) as usize % alpha.len()])
                }
            }
            assert_eq!(a.is_match(&t), b.is_match(&t), "{} {:?}", f, t);
            let x: Vec<_> = a.captures_iter(&t).map(|c| c.iter().map(|m| m.map(|m| m.range())).collect::<Vec<_>>()).collect();
            let y: Vec<_> = b.captures_iter(&t).map(|c| c.iter().map(|m| m.map(|m| m.range())).collect::<Vec<_>>()).collect();
            assert_eq!(x, y, "{} {:?}", f, t);
            assert_eq!(a.split(&t).collect::<Vec<_>>(), b.split(&t).collect::<Vec<_>>(), "{} {:?}", f, t);
            assert_eq!(a.replace_all(&t, "N${1}-$$x"), b.replace_all(&t, "N${1}-$$x"), "{} {:?}", f, t);
            n += 1;
        }
    }
    println!("{} comparisons agree", n);
}
