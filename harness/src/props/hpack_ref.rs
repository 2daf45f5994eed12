//! Independent HPACK (RFC 7541): tables, integer and string codecs, a
//! reference table, a reference decoder and a randomised reference encoder.
//! The code and static tables are those of golang.org/x/net/http2/hpack.
use crate::engine::Src;
use std::collections::VecDeque;

#[rustfmt::skip]
pub const HUFF: [(u32, u8); 257] = [
    (0x1ff8, 13), (0x7fffd8, 23), (0xfffffe2, 28), (0xfffffe3, 28), (0xfffffe4, 28), (0xfffffe5, 28),
    (0xfffffe6, 28), (0xfffffe7, 28), (0xfffffe8, 28), (0xffffea, 24), (0x3ffffffc, 30), (0xfffffe9, 28),
    (0xfffffea, 28), (0x3ffffffd, 30), (0xfffffeb, 28), (0xfffffec, 28), (0xfffffed, 28), (0xfffffee, 28),
    (0xfffffef, 28), (0xffffff0, 28), (0xffffff1, 28), (0xffffff2, 28), (0x3ffffffe, 30), (0xffffff3, 28),
    (0xffffff4, 28), (0xffffff5, 28), (0xffffff6, 28), (0xffffff7, 28), (0xffffff8, 28), (0xffffff9, 28),
    (0xffffffa, 28), (0xffffffb, 28), (0x14, 6), (0x3f8, 10), (0x3f9, 10), (0xffa, 12),
    (0x1ff9, 13), (0x15, 6), (0xf8, 8), (0x7fa, 11), (0x3fa, 10), (0x3fb, 10),
    (0xf9, 8), (0x7fb, 11), (0xfa, 8), (0x16, 6), (0x17, 6), (0x18, 6),
    (0x0, 5), (0x1, 5), (0x2, 5), (0x19, 6), (0x1a, 6), (0x1b, 6),
    (0x1c, 6), (0x1d, 6), (0x1e, 6), (0x1f, 6), (0x5c, 7), (0xfb, 8),
    (0x7ffc, 15), (0x20, 6), (0xffb, 12), (0x3fc, 10), (0x1ffa, 13), (0x21, 6),
    (0x5d, 7), (0x5e, 7), (0x5f, 7), (0x60, 7), (0x61, 7), (0x62, 7),
    (0x63, 7), (0x64, 7), (0x65, 7), (0x66, 7), (0x67, 7), (0x68, 7),
    (0x69, 7), (0x6a, 7), (0x6b, 7), (0x6c, 7), (0x6d, 7), (0x6e, 7),
    (0x6f, 7), (0x70, 7), (0x71, 7), (0x72, 7), (0xfc, 8), (0x73, 7),
    (0xfd, 8), (0x1ffb, 13), (0x7fff0, 19), (0x1ffc, 13), (0x3ffc, 14), (0x22, 6),
    (0x7ffd, 15), (0x3, 5), (0x23, 6), (0x4, 5), (0x24, 6), (0x5, 5),
    (0x25, 6), (0x26, 6), (0x27, 6), (0x6, 5), (0x74, 7), (0x75, 7),
    (0x28, 6), (0x29, 6), (0x2a, 6), (0x7, 5), (0x2b, 6), (0x76, 7),
    (0x2c, 6), (0x8, 5), (0x9, 5), (0x2d, 6), (0x77, 7), (0x78, 7),
    (0x79, 7), (0x7a, 7), (0x7b, 7), (0x7ffe, 15), (0x7fc, 11), (0x3ffd, 14),
    (0x1ffd, 13), (0xffffffc, 28), (0xfffe6, 20), (0x3fffd2, 22), (0xfffe7, 20), (0xfffe8, 20),
    (0x3fffd3, 22), (0x3fffd4, 22), (0x3fffd5, 22), (0x7fffd9, 23), (0x3fffd6, 22), (0x7fffda, 23),
    (0x7fffdb, 23), (0x7fffdc, 23), (0x7fffdd, 23), (0x7fffde, 23), (0xffffeb, 24), (0x7fffdf, 23),
    (0xffffec, 24), (0xffffed, 24), (0x3fffd7, 22), (0x7fffe0, 23), (0xffffee, 24), (0x7fffe1, 23),
    (0x7fffe2, 23), (0x7fffe3, 23), (0x7fffe4, 23), (0x1fffdc, 21), (0x3fffd8, 22), (0x7fffe5, 23),
    (0x3fffd9, 22), (0x7fffe6, 23), (0x7fffe7, 23), (0xffffef, 24), (0x3fffda, 22), (0x1fffdd, 21),
    (0xfffe9, 20), (0x3fffdb, 22), (0x3fffdc, 22), (0x7fffe8, 23), (0x7fffe9, 23), (0x1fffde, 21),
    (0x7fffea, 23), (0x3fffdd, 22), (0x3fffde, 22), (0xfffff0, 24), (0x1fffdf, 21), (0x3fffdf, 22),
    (0x7fffeb, 23), (0x7fffec, 23), (0x1fffe0, 21), (0x1fffe1, 21), (0x3fffe0, 22), (0x1fffe2, 21),
    (0x7fffed, 23), (0x3fffe1, 22), (0x7fffee, 23), (0x7fffef, 23), (0xfffea, 20), (0x3fffe2, 22),
    (0x3fffe3, 22), (0x3fffe4, 22), (0x7ffff0, 23), (0x3fffe5, 22), (0x3fffe6, 22), (0x7ffff1, 23),
    (0x3ffffe0, 26), (0x3ffffe1, 26), (0xfffeb, 20), (0x7fff1, 19), (0x3fffe7, 22), (0x7ffff2, 23),
    (0x3fffe8, 22), (0x1ffffec, 25), (0x3ffffe2, 26), (0x3ffffe3, 26), (0x3ffffe4, 26), (0x7ffffde, 27),
    (0x7ffffdf, 27), (0x3ffffe5, 26), (0xfffff1, 24), (0x1ffffed, 25), (0x7fff2, 19), (0x1fffe3, 21),
    (0x3ffffe6, 26), (0x7ffffe0, 27), (0x7ffffe1, 27), (0x3ffffe7, 26), (0x7ffffe2, 27), (0xfffff2, 24),
    (0x1fffe4, 21), (0x1fffe5, 21), (0x3ffffe8, 26), (0x3ffffe9, 26), (0xffffffd, 28), (0x7ffffe3, 27),
    (0x7ffffe4, 27), (0x7ffffe5, 27), (0xfffec, 20), (0xfffff3, 24), (0xfffed, 20), (0x1fffe6, 21),
    (0x3fffe9, 22), (0x1fffe7, 21), (0x1fffe8, 21), (0x7ffff3, 23), (0x3fffea, 22), (0x3fffeb, 22),
    (0x1ffffee, 25), (0x1ffffef, 25), (0xfffff4, 24), (0xfffff5, 24), (0x3ffffea, 26), (0x7ffff4, 23),
    (0x3ffffeb, 26), (0x7ffffe6, 27), (0x3ffffec, 26), (0x3ffffed, 26), (0x7ffffe7, 27), (0x7ffffe8, 27),
    (0x7ffffe9, 27), (0x7ffffea, 27), (0x7ffffeb, 27), (0xffffffe, 28), (0x7ffffec, 27), (0x7ffffed, 27),
    (0x7ffffee, 27), (0x7ffffef, 27), (0x7fffff0, 27), (0x3ffffee, 26), (0x3fffffff, 30),
];

pub const STATIC: [(&str, &str); 61] = [
    (":authority", ""),
    (":method", "GET"),
    (":method", "POST"),
    (":path", "/"),
    (":path", "/index.html"),
    (":scheme", "http"),
    (":scheme", "https"),
    (":status", "200"),
    (":status", "204"),
    (":status", "206"),
    (":status", "304"),
    (":status", "400"),
    (":status", "404"),
    (":status", "500"),
    ("accept-charset", ""),
    ("accept-encoding", "gzip, deflate"),
    ("accept-language", ""),
    ("accept-ranges", ""),
    ("accept", ""),
    ("access-control-allow-origin", ""),
    ("age", ""),
    ("allow", ""),
    ("authorization", ""),
    ("cache-control", ""),
    ("content-disposition", ""),
    ("content-encoding", ""),
    ("content-language", ""),
    ("content-length", ""),
    ("content-location", ""),
    ("content-range", ""),
    ("content-type", ""),
    ("cookie", ""),
    ("date", ""),
    ("etag", ""),
    ("expect", ""),
    ("expires", ""),
    ("from", ""),
    ("host", ""),
    ("if-match", ""),
    ("if-modified-since", ""),
    ("if-none-match", ""),
    ("if-range", ""),
    ("if-unmodified-since", ""),
    ("last-modified", ""),
    ("link", ""),
    ("location", ""),
    ("max-forwards", ""),
    ("proxy-authenticate", ""),
    ("proxy-authorization", ""),
    ("range", ""),
    ("referer", ""),
    ("refresh", ""),
    ("retry-after", ""),
    ("server", ""),
    ("set-cookie", ""),
    ("strict-transport-security", ""),
    ("transfer-encoding", ""),
    ("user-agent", ""),
    ("vary", ""),
    ("via", ""),
    ("www-authenticate", ""),
];

pub type Field = (Vec<u8>, Vec<u8>);

pub fn huff_encode(s: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    let (mut acc, mut n) = (0u64, 0u32);
    for &b in s {
        let (c, l) = HUFF[b as usize];
        acc = acc << l | c as u64;
        n += l as u32;
        while n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    if n > 0 {
        out.push((acc << (8 - n)) as u8 | ((1u16 << (8 - n)) - 1) as u8);
    }
    out
}

/// Tree nodes: [left, right], -1 absent, >= 1000 leaf.
fn tree() -> &'static Vec<[i32; 2]> {
    static T: std::sync::OnceLock<Vec<[i32; 2]>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t: Vec<[i32; 2]> = vec![[-1, -1]];
        for (sym, (c, n)) in HUFF.iter().enumerate() {
            let mut at = 0usize;
            for i in (0..*n).rev() {
                let b = (c >> i & 1) as usize;
                if i == 0 {
                    assert!(t[at][b] == -1);
                    t[at][b] = 1000 + sym as i32;
                } else {
                    if t[at][b] == -1 {
                        t.push([-1, -1]);
                        let n = t.len() as i32 - 1;
                        t[at][b] = n;
                    }
                    at = t[at][b] as usize;
                }
            }
        }
        t
    })
}

/// RFC 7541 section 5.2: None for a decoding error.
pub fn huff_decode(s: &[u8]) -> Option<Vec<u8>> {
    let t = tree();
    let mut out = Vec::new();
    let (mut at, mut pending, mut ones) = (0usize, 0u32, true);
    for byte in s {
        for i in (0..8).rev() {
            let b = (byte >> i & 1) as usize;
            pending += 1;
            ones &= b == 1;
            let n = t[at][b];
            if n >= 1000 {
                if n == 1256 {
                    return None;
                }
                out.push((n - 1000) as u8);
                at = 0;
                pending = 0;
                ones = true;
            } else {
                at = n as usize;
            }
        }
    }
    if pending > 7 || !ones {
        return None;
    }
    Some(out)
}

pub fn put_int(out: &mut Vec<u8>, first: u8, prefix: u32, v: usize) {
    let mask = (1usize << prefix) - 1;
    if v < mask {
        out.push(first | v as u8);
        return;
    }
    out.push(first | mask as u8);
    let mut v = v - mask;
    while v >= 128 {
        out.push((v % 128) as u8 | 128);
        v /= 128;
    }
    out.push(v as u8);
}

pub fn put_str(out: &mut Vec<u8>, s: &[u8], huff: bool) {
    if huff {
        let h = huff_encode(s);
        put_int(out, 0x80, 7, h.len());
        out.extend_from_slice(&h);
    } else {
        put_int(out, 0, 7, s.len());
        out.extend_from_slice(s);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Table {
    pub entries: VecDeque<Field>,
    pub max: usize,
    pub limit: usize,
}
impl Table {
    pub fn new() -> Table {
        Table { entries: VecDeque::new(), max: 4096, limit: 4096 }
    }
    pub fn size(&self) -> usize {
        self.entries.iter().map(|e| e.0.len() + e.1.len() + 32).sum()
    }
    pub fn evict(&mut self) {
        let mut size = self.size();
        while size > self.max {
            let e = self.entries.pop_back().unwrap();
            size -= e.0.len() + e.1.len() + 32;
        }
    }
    pub fn resize(&mut self, n: usize) {
        self.max = n;
        self.evict();
    }
    pub fn add(&mut self, f: Field) {
        self.entries.push_front(f);
        self.evict();
    }
    pub fn get(&self, i: usize) -> Option<Field> {
        if i == 0 {
            None
        } else if i <= 61 {
            let (n, v) = STATIC[i - 1];
            Some((n.as_bytes().to_vec(), v.as_bytes().to_vec()))
        } else {
            self.entries.get(i - 62).cloned()
        }
    }
    /// Indices whose name is `name`, and those that match `value` too.
    pub fn find(&self, name: &[u8], value: &[u8]) -> (Vec<usize>, Vec<usize>) {
        let (mut names, mut full) = (Vec::new(), Vec::new());
        for (i, (n, v)) in STATIC.iter().enumerate() {
            if n.as_bytes() == name {
                names.push(i + 1);
                if v.as_bytes() == value {
                    full.push(i + 1);
                }
            }
        }
        for (i, (n, v)) in self.entries.iter().enumerate() {
            if n == name {
                names.push(i + 62);
                if v == value {
                    full.push(i + 62);
                }
            }
        }
        (names, full)
    }
}

fn take_int(b: &[u8], at: &mut usize, prefix: u32) -> Option<usize> {
    let mask = (1usize << prefix) - 1;
    let mut v = (*b.get(*at)? as usize) & mask;
    *at += 1;
    if v < mask {
        return Some(v);
    }
    let mut m = 0;
    loop {
        let c = *b.get(*at)? as usize;
        *at += 1;
        if m > 28 {
            return None;
        }
        v += (c & 127) << m;
        m += 7;
        if c & 128 == 0 {
            return Some(v);
        }
    }
}
fn take_str(b: &[u8], at: &mut usize) -> Option<Vec<u8>> {
    let h = *b.get(*at)? & 128 != 0;
    let n = take_int(b, at, 7)?;
    let s = b.get(*at..at.checked_add(n)?)?;
    *at += n;
    if h {
        huff_decode(s)
    } else {
        Some(s.to_vec())
    }
}

/// Reference decoder: the fields of one block, or None for any error.
pub fn decode(t: &mut Table, b: &[u8]) -> Option<Vec<Field>> {
    let mut at = 0;
    let mut out = Vec::new();
    while at < b.len() {
        let o = b[at];
        if o & 128 != 0 {
            let i = take_int(b, &mut at, 7)?;
            out.push(t.get(i)?);
        } else if o & 0xe0 == 0x20 {
            let n = take_int(b, &mut at, 5)?;
            if n > t.limit {
                return None;
            }
            t.resize(n);
        } else {
            let index = o & 64 != 0;
            let i = take_int(b, &mut at, if index { 6 } else { 4 })?;
            let name = if i == 0 { take_str(b, &mut at)? } else { t.get(i)?.0 };
            let value = take_str(b, &mut at)?;
            if index {
                t.add((name.clone(), value.clone()));
            }
            out.push((name, value));
        }
    }
    Some(out)
}

/// Encodes one field with a randomly chosen representation among those that
/// RFC 7541 allows; returns a label of the choice.
pub fn encode_field(src: &mut Src, t: &mut Table, f: &Field, out: &mut Vec<u8>) -> &'static str {
    let (names, full) = t.find(&f.0, &f.1);
    if !full.is_empty() && src.chance(3, 4) {
        let i = *src.pick(&full);
        put_int(out, 0x80, 7, i);
        return if i >= 127 {
            "indexed, multi-byte"
        } else if i > 61 {
            "indexed, dynamic"
        } else {
            "indexed, static"
        };
    }
    let (first, prefix, label) = match src.upto(3) {
        0 | 1 => (0x40u8, 6, "literal with indexing"),
        2 => (0x00, 4, "literal without indexing"),
        _ => (0x10, 4, "literal never indexed"),
    };
    if !names.is_empty() && src.chance(2, 3) {
        let i = *src.pick(&names);
        put_int(out, first, prefix, i);
    } else {
        out.push(first);
        let h = src.bool();
        put_str(out, &f.0, h);
    }
    let h = src.bool();
    put_str(out, &f.1, h);
    if first == 0x40 {
        t.add(f.clone());
    }
    label
}

#[cfg(test)]
mod tests {
    use super::*;
    // RFC 7541 C.4.1 and C.4.2
    #[test]
    fn rfc_examples() {
        let mut t = Table::new();
        let b = [0x82, 0x86, 0x84, 0x41, 0x8c, 0xf1, 0xe3, 0xc2, 0xe5, 0xf2, 0x3a, 0x6b, 0xa0, 0xab, 0x90, 0xf4, 0xff];
        let f = decode(&mut t, &b).unwrap();
        assert_eq!(f[3], (b":authority".to_vec(), b"www.example.com".to_vec()));
        assert_eq!(t.size(), 57);
        assert_eq!(huff_encode(b"www.example.com"), &b[5..]);
    }
}
