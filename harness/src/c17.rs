use crate::Src;
use rust_3d::io::verif::*;
use rust_3d::{contains, estimate_delimiter, to_words_skip_empty, until_bytes, IsSkipEmptyStringProducer};
use std::io::{BufReader, Read};

fn text<S: Src>(s: &mut S, n: usize) -> Vec<u8> {
    let n = s.below(n + 1);
    (0..n)
        .map(|_| match s.below(12) {
            0 | 1 => b'\n',
            2 | 3 => b' ',
            4 => b'\t',
            5 => b';',
            6 => b',',
            7 => b'\r',
            8 => s.u8(),
            _ => b'a' + s.below(3) as u8,
        })
        .collect()
}
fn white(b: u8) -> bool {
    (9..=13).contains(&b) || b == 32 || b == 0x85 || b == 0xA0
}
fn trimmed(l: &[u8]) -> &[u8] {
    let mut n = l.len();
    while n > 0 && white(l[n - 1]) {
        n -= 1;
    }
    &l[..n]
}
pub fn lines<S: Src>(s: &mut S) {
    let t = text(s, 14);
    let mut want: Vec<&[u8]> = t.split(|b| *b == b'\n').collect();
    if want.last().map_or(false, |l| l.is_empty()) {
        want.pop();
    }
    let mut r = BufReader::with_capacity(1 + s.below(5), &t[..]);
    let mut buffer = vec![1, 2, 3];
    for w in want {
        match fetch_line(&mut r, &mut buffer) {
            Ok(l) => s.ck(l == trimmed(w), "line without terminator and trailing white space"),
            Err(_) => s.ck(false, "every line is fetched"),
        }
    }
    s.ck(fetch_line(&mut r, &mut buffer).is_err(), "nothing after the last line");
    s.ck(fetch_line(&mut r, &mut buffer).is_err(), "still nothing after the last line");
}
fn split<'a>(t: &'a [u8], sep: &[u8]) -> Vec<&'a [u8]> {
    let mut r = vec![];
    let mut a = 0;
    for i in 0..=t.len() {
        if i == t.len() || sep.contains(&t[i]) {
            r.push(&t[a..i]);
            a = i + 1;
        }
    }
    r
}
pub fn words<S: Src>(s: &mut S) {
    let t = text(s, 14);
    let want: Vec<&[u8]> = split(&t, b" \t").into_iter().filter(|w| !w.is_empty()).collect();
    let got: Vec<&[u8]> = to_words_skip_empty(&t).collect();
    s.ck(got == want, "words");
    let d = [b' ', b';', b'a', b'\n', 0][s.below(5)];
    s.ck(until_bytes(&t, d) == split(&t, &[d])[0], "until_bytes");
    let st: String = t.iter().map(|b| (*b & 0x7f) as char).collect();
    let lines: Vec<&str> = st.split("\n").skip_empty_string().collect();
    let want: Vec<&str> = st.split("\n").filter(|l| l.len() > 0).collect();
    s.ck(lines == want, "skip_empty_string");
    let k = t.iter().take_while(|b| **b == b' ' || **b == b'\t').count();
    s.ck(trim_start(&t) == &t[k..], "trim_start");
}
pub fn search<S: Src>(s: &mut S) {
    let t = text(s, 10);
    let needle: Vec<u8> = if s.bool() && t.len() > 0 {
        let a = s.below(t.len());
        let b = a + s.below(t.len() - a + 1);
        t[a..b].to_vec()
    } else {
        text(s, 4)
    };
    let want = (0..=t.len()).any(|a| t[a..].starts_with(&needle));
    s.ck(contains(&t, &needle) == want, "contains");
    let min = s.below(4);
    let count = |x: u8| t.iter().filter(|b| **b == x).count();
    let want = [b' ', b';', b',', b'\t'].iter().cloned().find(|x| count(*x) >= min);
    s.ck(estimate_delimiter(min, &t) == want, "estimate_delimiter");
}
pub fn skipping<S: Src>(s: &mut S) {
    let t = text(s, 10);
    let n = s.below(13);
    let mut r = BufReader::with_capacity(1 + s.below(5), &t[..]);
    let ok = skip_bytes(&mut r, n).is_ok();
    s.ck(ok == (n <= t.len()), "skip_bytes fails exactly if there are too few bytes");
    if ok {
        let mut rest = vec![];
        let _ = r.read_to_end(&mut rest);
        s.ck(rest == &t[n..], "skip_bytes skips exactly n bytes");
    }
    let mut it = t.iter().cloned();
    skip_n(&mut it, n);
    s.ck(it.collect::<Vec<u8>>() == &t[n.min(t.len())..], "skip_n");
}
pub fn ascii<S: Src>(s: &mut S) {
    let t = text(s, 5);
    let want = if t.iter().all(|b| *b < 128) { String::from_utf8(t.clone()).ok() } else { None };
    s.ck(from_ascii::<String>(&t) == want, "from_ascii");
    let x = s.u64();
    s.ck(from_ascii::<u64>(x.to_string().as_bytes()) == Some(x), "from_ascii number");
    s.ck(from_ascii::<f64>(&t) == want.and_then(|w| w.parse().ok()), "from_ascii parses as the standard library does");
}
crate::natives! { lines: 5000, words: 5000, search: 5000, skipping: 3000, ascii: 2000 }
