//! C10: distances against the cosine of the sets of words.
use logreduce_index::*;
use symrt::*;

/// words of two letters: the first is symbolic, so that words may or may not coincide
fn word() -> Vec<u8> {
    let mut w = over(1, b"ghijk");
    w.push(b'z');
    w
}

/// a line of n words, as the list of its words
type Line = Vec<Vec<u8>>;
fn line(n: usize) -> Line {
    (0..n).map(|_| word()).collect()
}
fn text(l: &Line) -> String {
    String::from_utf8(l.join(&b' ')).unwrap_or_else(|_| kill())
}

fn set(l: &Line) -> Line {
    let mut out: Line = vec![];
    for w in l {
        if !out.iter().any(|x| same(x, w)) {
            out.push(w.clone());
        }
    }
    out
}

/// 1 - |a ∩ b| / sqrt(|a||b|)
fn cosine(a: &Line, b: &Line) -> f32 {
    let (a, b) = (set(a), set(b));
    let common = a.iter().filter(|w| b.iter().any(|x| same(x, w))).count();
    1.0 - common as f32 / ((a.len() * b.len()) as f32).sqrt()
}

fn near(a: f32, b: f32) -> bool {
    (a - b).abs() < 0.0001
}

fn expected(base: &[Line], t: &Line) -> f32 {
    base.iter().fold(1.0, |d, b| d.min(cosine(b, t)))
}

/// every division of the baseline into chunks gives, for every target, the distance to its closest line
fn distances(base: usize, targets: usize, words: usize) {
    let b: Vec<Line> = (0..base).map(|_| line(words)).collect();
    let t: Vec<Line> = (0..targets).map(|i| line(words - (i & 1))).collect();
    let bs: Vec<String> = b.iter().map(text).collect();
    let ts: Vec<String> = t.iter().map(text).collect();
    let cut = choose(base + 1);
    let mut chunks = vec![];
    if cut > 0 {
        chunks.push(index_mat(&bs[..cut]));
    }
    if cut < base {
        chunks.push(index_mat(&bs[cut..]));
    }
    let got = search_mat_chunk(&chunks, &ts);
    check(got.len() == targets, "not every target has a distance");
    for (d, t) in got.iter().zip(&t) {
        check(*d > -0.0001 && *d < 1.0001, "a distance is out of range");
        let e = expected(&b, t);
        check(near(*d, e), "a distance is not that of the closest line of the baseline");
        if near(e, 0.0) {
            cover("known line");
        }
        if near(e, 1.0) {
            cover("line without a known word");
        }
    }
    let whole = search_mat(&index_mat(&bs), &ts);
    check(whole.len() == targets, "not every target has a distance");
    for (a, b) in whole.iter().zip(&got) {
        check(near(*a, *b), "the distance depends on how the baseline is divided");
    }
}

/// the order and repetition of words, and the other targets, do not matter
fn order(words: usize) {
    let base = line(words);
    let t = line(words);
    let m = index_mat(&[text(&base)]);
    let alone = search_mat_chunk(&[m.clone()], &[text(&t)]);
    let mut r = t.clone();
    r.reverse();
    r.push(t[choose(words)].clone());
    let mixed = search_mat_chunk(&[m.clone()], &[text(&line(1)), text(&r), text(&base)]);
    check(near(mixed[1], alone[0]), "the order or repetition of words changes the distance");
    check(near(mixed[2], 0.0), "a line of the baseline is not found");
    // stored and restored
    let m2 = load_mat(&save_mat(&m));
    check(m2 == m, "a saved index is not restored");
}

/// the per-line implementation agrees with the matrix one
fn pairwise(words: usize) {
    let b = [line(words), line(words)];
    let t = line(words);
    let fs = index(&mut b.iter().map(text));
    let d = search(&fs, &text(&t));
    check(near(d, expected(&b, &t)), "a distance is not that of the closest line of the baseline");
    let m = search_mat(&index_mat(&[text(&b[0]), text(&b[1])]), &[text(&t)]);
    check(near(d, m[0]), "the two implementations disagree");
}

/// nothing to compare with, nothing to look for, empty lines
fn empty() {
    let t = [text(&line(1)), String::new()];
    let d = search_mat_chunk(&[], &t);
    check(d.len() == 2 && d[0] == 1.0 && d[1] == 1.0, "without a baseline every line is new");
    let m = index_mat(&[String::new(), text(&line(2))]);
    check(search_mat_chunk(&[m.clone()], &[]).is_empty(), "a distance for no target");
    let d = search_mat_chunk(&[m], &t);
    check(near(d[1], 0.0), "an empty line of the baseline is not found");
    check(d[0] >= -0.0001 && d[0] < 1.0001, "a distance is out of range");
    let e = search_mat_chunk(&[index_mat(&[])], &t);
    check(near(e[0], 1.0), "without a baseline every line is new");
}

fn filler(n: usize) -> Line {
    (0..n).map(|i| format!("word{}", i * 7).into_bytes()).collect()
}

/// lines of many words: the first and the last one are symbolic
fn long(sizes: &[usize]) {
    let n = sizes[choose(sizes.len())];
    let mk = || {
        let mut l = vec![word()];
        l.extend(filler(n));
        l.push(word());
        l
    };
    let (b, t) = (mk(), mk());
    let got = search_mat_chunk(&[index_mat(&[text(&b)])], &[text(&t)]);
    check(got.len() == 1, "not every target has a distance");
    // n words in common, up to two others
    let s = |l: &Line| if same(&l[0], &l[n + 1]) { 1 } else { 2 };
    let ends = |l: &Line| if s(l) == 1 { vec![l[0].clone()] } else { vec![l[0].clone(), l[n + 1].clone()] };
    let (x, y) = (ends(&b), ends(&t));
    let common = n + x.iter().filter(|w| y.iter().any(|v| same(v, w))).count();
    let want = 1.0 - common as f32 / (((n + x.len()) * (n + y.len())) as f32).sqrt();
    check(near(got[0], want), "a distance is not that of the closest line of the baseline");
    if common == n {
        check(got[0] > 0.0004, "a line with an unknown word is known");
        cover("one unknown word");
    }
}

/// many lines, in chunks of every size, and many targets
fn many(n: usize) {
    let size = [1, 2, 7, n][choose(4)];
    let line = |i: usize| vec![format!("line{}", i).into_bytes(), format!("mark{}", i * 3).into_bytes()];
    let at = [0, 1, n / 2, n - 1][choose(4)];
    let mut b: Vec<Line> = (0..n).map(line).collect();
    b[at] = vec![word(), b"zzzz".to_vec()];
    let own = word();
    let mut t: Vec<Line> = (0..n).map(line).collect();
    let place = [0, 9, n - 1][choose(3)];
    t[place] = vec![own, b"zzzz".to_vec()];
    let bs: Vec<String> = b.iter().map(text).collect();
    let ts: Vec<String> = t.iter().map(text).collect();
    let chunks: Vec<FeaturesMatrix> = bs.chunks(size).map(index_mat).collect();
    let got = search_mat_chunk(&chunks, &ts);
    check(got.len() == n, "not every target has a distance");
    for i in 0..n {
        let want = if i == place {
            if same(&t[place][0], &b[at][0]) { 0.0 } else { 0.5 }
        } else if i == at {
            1.0
        } else {
            0.0
        };
        check(near(got[i], want), "a distance is not that of the closest line of the baseline");
    }
    cover("searched");
}

fn run(arg: u64) {
    match arg {
        7 => long(&[9, 20, 70, 300, 1100]),
        8 => many(24),
        17 => long(&[130, 600, 2000]),
        18 => many(70),
        1 => distances(2, 2, 2),
        2 => order(3),
        3 => pairwise(2),
        4 => empty(),
        5 => distances(3, 2, 1),
        6 => distances(1, 1, 3),
        // --- thorough
        11 => distances(3, 2, 2),
        12 => order(4),
        13 => pairwise(3),
        16 => distances(1, 1, 4),
        _ => fail("no such case"),
    }
}
entry!(run);
