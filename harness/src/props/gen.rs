//! Generators and small helpers shared by the checks.
use crate::engine::Src;
use algorithm::buf::{Binary, Bt};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use webparse::{HeaderMap, HeaderName, HeaderValue};

pub const TCHAR: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_!#$%&'*+.^`|~";

/// Header names the library has constants for (a sample) plus ordinary ones.
pub const COMMON: &[&str] = &[
    "accept", "host", "user-agent", "content-length", "content-type", "connection", "transfer-encoding",
    "upgrade", "cookie", "set-cookie", "referer", "date", "etag", "server", "location", "cache-control",
    "authorization", "accept-encoding", "x-request-id", "x", "accept-charset", "via", "age",
];

thread_local! {
    static INTERN: RefCell<HashMap<Vec<u8>, &'static str>> = RefCell::new(HashMap::new());
}
/// A `&'static str` with this content (interned, so memory stays bounded by
/// the number of distinct strings).
pub fn leak(s: &str) -> &'static str {
    INTERN.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(x) = m.get(s.as_bytes()) {
            return *x;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        if m.len() < 300_000 {
            m.insert(s.as_bytes().to_vec(), l);
        }
        l
    })
}

pub fn recase(src: &mut Src, s: &str) -> String {
    match src.upto(3) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => {
            let mut up = true;
            s.chars()
                .map(|c| {
                    let r = if up { c.to_ascii_uppercase() } else { c };
                    up = c == '-';
                    r
                })
                .collect()
        }
        _ => s.chars().map(|c| if src.bool() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

/// An RFC 7230 token usable as a header name.
pub fn hname(src: &mut Src) -> String {
    match src.upto(9) {
        0 | 1 => {
            let n = src.range(1, 3) as usize;
            (0..n).map(|_| *src.pick(b"abAB-1") as char).collect()
        }
        2..=4 => {
            let s = *src.pick(COMMON);
            recase(src, s)
        }
        5 => {
            // a literal of the code under test (all registered names are)
            let b = src.literal_bytes(40, |b| TCHAR.contains(&b));
            let s = if b.is_empty() { "l".to_string() } else { String::from_utf8(b).unwrap() };
            recase(src, &s)
        }
        6 | 7 => {
            let n = src.range(1, 8) as usize;
            (0..n).map(|_| *src.pick(TCHAR) as char).collect()
        }
        _ => {
            let k = src.stretch(60, 13);
            if k > 0 {
                return String::from_utf8(src.bulk_of(k, TCHAR)).unwrap();
            }
            let n = 1 + src.size(40);
            (0..n).map(|_| *src.pick(TCHAR) as char).collect()
        }
    }
}

/// A header value that arrives as it was sent: any bytes but CR and LF, with no
/// space or tab at either end.
pub fn hvalue(src: &mut Src) -> Vec<u8> {
    let mut v = hvalue_raw(src);
    for i in [0, v.len().saturating_sub(1)] {
        if let Some(b) = v.get_mut(i).filter(|b| **b == b' ' || **b == b'\t') {
            *b = b'_';
        }
    }
    v
}

/// The spaces and tabs that may stand around a header value.
pub fn ows(src: &mut Src) -> Vec<u8> {
    match src.upto(3) {
        0 => b" ".to_vec(),
        1 => vec![],
        2 => (0..src.size(8)).map(|_| *src.pick(b" \t")).collect(),
        _ => vec![b' '; src.size(4)],
    }
}

/// A header value: any bytes but CR and LF, not starting with a space.
pub fn hvalue_raw(src: &mut Src) -> Vec<u8> {
    if src.chance(1, 16) {
        let mut v = src.literal_bytes(60, |b| b != b'\r' && b != b'\n');
        if v.first() == Some(&b' ') {
            v[0] = b'_';
        }
        return v;
    }
    let k = match src.large(1 << 22) {
        Some(n) => n,
        None => src.stretch(500, 17),
    };
    if k > 0 {
        let end = *src.pick(b"a b\tz");
        let mut v = src.bulk_of(k, b"abcdefghijklmnopqrstuvwxyz0123456789,;=:/%\"- \xff");
        v[0] = b'a';
        *v.last_mut().unwrap() = if k > 1 { end } else { b'a' };
        return v;
    }
    let n = if src.chance(1, 200) { src.size(5000) } else { src.size(80) };
    let style = src.upto(3);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match style {
            0 => *src.pick(b"abc xyz019;,=:/\t\"-"),
            1 => src.range(0x20, 0x7e) as u8,
            2 => src.byte(),
            _ => *src.pick(&[b'a', b' ', b'\t', b':', 0u8, 0x7f, 0x80, 0xff, b'%', b'"', b';']),
        })
        .map(|b| if b == b'\r' || b == b'\n' { b'.' } else { b })
        .collect();
    if v.first() == Some(&b' ') {
        v[0] = b'_';
    }
    v
}

/// The description of an error may be asked for, too.
pub fn told(e: webparse::WebError) -> webparse::WebError {
    let _ = (e.to_string(), format!("{:?}", e), e.is_partial());
    e
}

pub fn contains_name(list: &[(String, Vec<u8>)], name: &str) -> bool {
    list.iter().any(|(n, _)| n.eq_ignore_ascii_case(name))
}

/// Headers with names that are distinct ignoring case, none of them `skip`.
pub fn headers(src: &mut Src, max: usize, skip: &[&str]) -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Vec<u8>)> = Vec::new();
    let mut n = 0;
    while src.more(n, max, 3) {
        n += 1;
        let name = hname(src);
        let value = hvalue(src);
        if skip.iter().any(|s| s.eq_ignore_ascii_case(&name)) || contains_name(&out, &name) {
            continue;
        }
        out.push((name, value));
    }
    // many of them
    let many = match src.large(4000) {
        Some(n) => n,
        None if src.chance(1, 25) => src.upto(20) as usize,
        None => src.stretch(250, 10),
    };
    let odd = many > 0 && src.bool();
    for i in 0..many {
        let name = format!("{}-{}", *src.pick(&["X-R", "Y"]), i);
        if skip.iter().any(|s| s.eq_ignore_ascii_case(&name)) || contains_name(&out[..out.len().min(max)], &name) {
            continue;
        }
        let value = src.bulk_of(i % 7, if odd { b"abc,;012\x0c" } else { b"abc,;0123" });
        out.push((name, value));
    }
    if many > 0 && src.bool() {
        // the elaborate ones behind (some of) the many
        let k = src.below(out.len().max(1));
        out.rotate_left(k);
    }
    out
}
/// Headers that nothing looks at; none in most cases.
pub fn fillers(src: &mut Src) -> Vec<(String, Vec<u8>)> {
    let n = src.stretch(60, 10);
    // values whose ends are characters that some readers trim
    let odd = n > 0 && src.bool();
    let values: &[&str] = if odd { &["", "\u{c}", "a\u{c}", "\u{b}b", ";", "\u{a0}c\u{a0}", "\0d\0", "\"", "e,"] } else { &["", "f", "fi", "fil", "fill", "fille", "filler"] };
    (0..n).map(|i| (format!("X-Fill-{}", i), values[i % values.len()].as_bytes().to_vec())).collect()
}

/// Makes a HeaderName in one of the ways the API offers.
pub fn mk_name(src: &mut Src, s: &str) -> HeaderName {
    match src.upto(if s.len() > 500 { 1 } else { 3 }) {
        0 => HeaderName::from_bytes(s.as_bytes()).expect("name"),
        1 => HeaderName::try_from(s.to_string()).expect("name"),
        2 => HeaderName::try_from(leak(s)).expect("name"),
        _ => HeaderName::from_static(leak(s)),
    }
}
pub fn mk_value(src: &mut Src, v: &[u8]) -> HeaderValue {
    match (src.upto(if v.len() > 500 { 1 } else { 3 }), std::str::from_utf8(v)) {
        (0, _) => HeaderValue::from_bytes(v),
        (1, Ok(s)) => HeaderValue::try_from(s.to_string()).expect("value"),
        (2, Ok(s)) => HeaderValue::from_static(leak(s)),
        (3, Ok(s)) => HeaderValue::try_from(leak(s)).expect("value"),
        _ => HeaderValue::from_cow(std::borrow::Cow::Borrowed(v)),
    }
}
pub fn mk_map(src: &mut Src, list: &[(String, Vec<u8>)]) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (n, v) in list {
        let n = mk_name(src, n);
        let v = mk_value(src, v);
        m.insert(n, v);
    }
    m
}
pub fn map_list(m: &HeaderMap) -> Vec<(String, Vec<u8>)> {
    m.iter().map(|(n, v)| (n.name().to_string(), v.as_bytes().to_vec())).collect()
}
/// Equal as ordered header lists, names compared ignoring ASCII case.
pub fn same_headers(a: &[(String, Vec<u8>)], b: &[(String, Vec<u8>)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.eq_ignore_ascii_case(&y.0) && x.1 == y.1)
}
pub fn show_headers(l: &[(String, Vec<u8>)]) -> String {
    l.iter()
        .map(|(n, v)| format!("{}={}", n, crate::engine::show(v)))
        .collect::<Vec<_>>()
        .join(" | ")
}

/// Arbitrary Unicode text, at most `max` characters, in several alphabets.
pub fn text(src: &mut Src, max: usize) -> String {
    if src.chance(1, 20) {
        return String::from_utf8(src.literal_bytes(max, |b| b.is_ascii())).unwrap();
    }
    let k = match src.large(1 << 22) {
        Some(n) => n,
        None => src.stretch(500, 17),
    };
    if k > 0 && max > 3 {
        return String::from_utf8(src.bulk_of(k, b"abcdefghijklmnopqrstuvwxyz0123456789/?&=%+ ~")).unwrap();
    }
    let n = src.size(max);
    let style = src.upto(4);
    let mut out: String = (0..n)
        .map(|_| match style {
            0 => *src.pick(b"abc019") as char,
            1 => *src.pick(b"/?#%@:&=+ ;[]!$'()*,-._~\\\"<>^`{|}a0") as char,
            2 => src.range(0x20, 0x7e) as u8 as char,
            3 => char::from_u32(src.upto(0x17f) as u32).unwrap_or('a'),
            _ => {
                let c = src.scaled(21).min(0x10ffff) as u32;
                char::from_u32(c).unwrap_or('\u{fffd}')
            }
        })
        .collect();
    if n > 0 && src.chance(1, 30) {
        // a character that some readers trim, at either end
        let c = *src.pick(&['\u{feff}', '\u{a0}', '\u{c}', '\u{85}', '\u{200b}', '\u{2028}', '\u{3000}', '\0']);
        if src.bool() {
            out.remove(0);
            out.insert(0, c);
        } else {
            out.pop();
            out.push(c);
        }
    }
    out
}

pub fn methods() -> &'static [&'static str] {
    &["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE"]
}
pub fn versions() -> &'static [&'static str] {
    &["HTTP/1.1", "HTTP/1.0", "HTTP/2", "HTTP/3"]
}

pub fn host(src: &mut Src) -> String {
    match src.upto(3) {
        0 => src.pick(&["a", "www.example.com", "localhost", "127.0.0.1", "x-y.z", "Www.Example.COM"]).to_string(),
        _ => {
            let n = src.range(1, 12) as usize;
            (0..n).map(|_| *src.pick(b"abcxyz019-._~AZ") as char).collect()
        }
    }
}
pub fn port(src: &mut Src) -> u16 {
    match src.upto(2) {
        0 => *src.pick(&[80u16, 443, 8080, 0, 65535, 21, 1]),
        1 => src.upto(65535) as u16,
        _ => src.scaled(16).min(65535) as u16,
    }
}

/// Percent-encodes every byte for which `keep` is false, with random hex case,
/// and sometimes encodes bytes that need not be.
pub fn pct(src: &mut Src, s: &[u8], keep: fn(u8) -> bool) -> String {
    let extra = src.upto(3) == 3;
    let mut o = String::new();
    for &b in s {
        if keep(b) && !(extra && src.upto(3) == 3) {
            o.push(b as char);
        } else if src.bool() {
            o.push_str(&format!("%{:02X}", b));
        } else {
            o.push_str(&format!("%{:02x}", b));
        }
    }
    o
}
pub fn unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"-._~".contains(&b)
}
/// pchar of RFC 3986 plus '/'.
pub fn path_char(b: u8) -> bool {
    unreserved(b) || b"!$&'()*+,;=:@/".contains(&b)
}
pub fn query_char(b: u8) -> bool {
    path_char(b) || b == b'?'
}

thread_local! { pub static STEPS: Cell<u64> = const { Cell::new(0) }; }

/// A buffer that counts every access and panics when the work done is out of
/// proportion to the input (so that a hang is a shrinkable failure).
pub struct Metered<'a> {
    pub data: &'a [u8],
    pub steps: Cell<u64>,
    pub limit: u64,
}
impl<'a> Metered<'a> {
    pub fn new(data: &'a [u8]) -> Metered<'a> {
        Metered { data, steps: Cell::new(0), limit: 64 * data.len() as u64 + 4096 }
    }
    fn tick(&self) {
        let n = self.steps.get() + 1;
        self.steps.set(n);
        if n > self.limit {
            panic!("more than {} buffer accesses for a {}-byte rest of input: not bounded by the input size", self.limit, self.data.len());
        }
    }
}
impl<'a> Bt for Metered<'a> {
    fn remaining(&self) -> usize {
        self.tick();
        self.data.len()
    }
    fn chunk(&self) -> &[u8] {
        self.tick();
        self.data
    }
    fn advance(&mut self, n: usize) {
        self.tick();
        assert!(n <= self.data.len(), "advance past the end of the input");
        self.data = &self.data[n..];
    }
    fn advance_chunk(&mut self, n: usize) -> &[u8] {
        self.tick();
        assert!(n <= self.data.len(), "advance past the end of the input");
        let (a, b) = self.data.split_at(n);
        self.data = b;
        a
    }
    fn into_binary(self) -> Binary {
        Binary::from(self.data.to_vec())
    }
}

/// A near copy: one byte changed, case changed, a byte added or removed.
pub fn tweak(src: &mut Src, v: &[u8], ok: fn(u8) -> bool) -> Vec<u8> {
    let mut t = v.to_vec();
    let n = t.len();
    let fix = |b: u8| if ok(b) { b } else { b'_' };
    match src.upto(5) {
        0 if n > 0 => t[n - 1] = fix(t[n - 1] ^ 1),
        1 if n > 0 => {
            let i = src.below(n);
            let b = src.byte();
            t[i] = fix(b);
        }
        2 if n > 0 => {
            let i = src.below(n);
            t[i] = fix(t[i] ^ 0x20);
        }
        3 if n > 1 => {
            let i = src.below(n);
            t.remove(i);
        }
        4 if n > 1 => {
            let i = src.below(n - 1);
            t.swap(i, i + 1);
        }
        _ => {
            let i = src.below(n + 1);
            let b = src.byte();
            t.insert(i, fix(b));
        }
    }
    t
}

/// Random damage to a byte string.
pub fn mutate(src: &mut Src, v: &mut Vec<u8>) {
    let n = src.range(1, 4);
    for _ in 0..n {
        let len = v.len();
        match src.upto(6) {
            0 if len > 0 => {
                let i = src.below(len);
                v[i] = src.byte();
            }
            1 if len > 0 => {
                let i = src.below(len);
                v[i] ^= 1 << src.upto(7);
            }
            2 => {
                let i = src.below(len + 1);
                let b = src.byte();
                v.insert(i, b);
            }
            3 if len > 0 => {
                let i = src.below(len);
                v.remove(i);
            }
            4 if len > 0 => {
                let i = src.below(len);
                v.truncate(i);
            }
            5 if len > 0 => {
                let i = src.below(len);
                let j = (i + src.size(12)).min(len);
                let part: Vec<u8> = v[i..j].to_vec();
                let k = src.below(len + 1);
                for (d, b) in part.into_iter().enumerate() {
                    v.insert(k + d, b);
                }
            }
            _ => {
                let x = src.pick(&[&b"\r\n"[..], b"\n", b"\r", b" ", b":", b"%", b"\0", b"\xff\xff", b"/", b"@", b"0", b"ffffffffffffffff"]).to_vec();
                let k = src.below(len + 1);
                for (d, b) in x.into_iter().enumerate() {
                    v.insert(k + d, b);
                }
            }
        }
    }
}
