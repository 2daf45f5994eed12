//! C08 C09 C10 C33: header names, values, maps and what is derived from them.
use super::gen::*;
use crate::engine::*;
use crate::{ensure, same};
use algorithm::buf::BinaryMut;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use webparse::{HeaderMap, HeaderName, HeaderValue, Helper, Request, Response};

// ------------------------------------------------------------------ C08
/// Names over an alphabet in which many bytes differ by exactly 32 without
/// being the two cases of a letter.
fn tricky_name(src: &mut Src) -> String {
    match src.upto(2) {
        0 => {
            let n = src.range(1, 2) as usize;
            (0..n).map(|_| *src.pick(b"aA!0Pp^~-Mm.Nn") as char).collect()
        }
        1 => {
            let s = *src.pick(&["host", "content-length", "x-a", "accept", ":method", ":path", ":status", ":x"]);
            recase(src, s)
        }
        _ => hname(src),
    }
}

type Model = Vec<(String, Vec<u8>)>;
fn find(m: &Model, n: &str) -> Option<usize> {
    m.iter().position(|(k, _)| k.eq_ignore_ascii_case(n))
}

fn check_map(map: &HeaderMap, model: &Model, probes: &[String], turn: usize) -> R {
    same!("len", map.len(), model.len());
    same!("is_empty", map.is_empty(), model.is_empty());
    let got = map_list(map);
    ensure!(
        same_headers(&got, model),
        "contents: got {}, expected {}",
        show_headers(&got),
        show_headers(model)
    );
    // of a long map, a part of the names at a time (lookups are linear)
    let step = model.len() / 50 + 1;
    let names = model.iter().skip(turn % step).step_by(step).chain(model.last());
    for p in probes.iter().chain(names.map(|(k, _)| k)) {
        let want = find(model, p).map(|i| model[i].1.clone());
        let name = HeaderName::try_from(p.clone()).map_err(|e| format!("{:?}", e))?;
        same!(format!("contains({:?})", p), map.contains(p), want.is_some());
        same!(format!("contains(HeaderName {:?})", p), map.contains(&name), want.is_some());
        same!(
            format!("get_option_value({:?})", p),
            map.get_option_value(p).map(|v| v.as_bytes().to_vec()),
            want
        );
        same!(
            format!("get_option_value(HeaderName {:?})", p),
            map.get_option_value(&name).map(|v| v.as_bytes().to_vec()),
            want
        );
        same!(
            format!("get_str_value({:?})", p),
            map.get_str_value(p),
            want.clone().and_then(|v| String::from_utf8(v).ok())
        );
        if let Some(v) = &want {
            same!(format!("get_value({:?})", p), map.get_value(p).as_bytes(), &v[..]);
            same!(format!("index [{:?}]", p), map[leak(p)].as_bytes(), &v[..]);
            ensure!(map.is_equal(p, v), "is_equal({:?}, own value) is false", p);
            let mut w = v.clone();
            w.push(b'x');
            ensure!(!map.is_equal(p, &w), "is_equal({:?}, longer value) is true", p);
            ensure!(!map.is_contains(p, &w), "is_contains({:?}, longer value) is true", p);
            let k = v.len() / 2;
            ensure!(map.is_contains(p, &v[k..]), "is_contains({:?}, suffix) is false", p);
            ensure!(map.is_contains(p, &v[..k]), "is_contains({:?}, prefix) is false", p);
        } else {
            ensure!(!map.is_equal(p, b""), "is_equal on a missing name is true");
            ensure!(!map.is_contains(p, b""), "is_contains on a missing name is true");
        }
    }
    if got.iter().any(|(n, _)| n.starts_with(':')) {
        // a pseudo-header has no HTTP/1 form
        return Ok(());
    }
    let mut buf = BinaryMut::new();
    map.encode(&mut buf).map_err(|e| format!("encode failed: {:?}", e))?;
    let mut want = Vec::new();
    for ((n, _), (_, v)) in got.iter().zip(model) {
        want.extend_from_slice(n.as_bytes());
        want.extend_from_slice(b": ");
        want.extend_from_slice(v);
        want.extend_from_slice(b"\r\n");
    }
    want.extend_from_slice(b"\r\n");
    let out = buf.into_slice_all();
    ensure!(out == want, "serialised form {} expected {}", show(&out), show(&want));
    if let Ok(s) = std::str::from_utf8(&want) {
        same!("Display", map.to_string(), s);
    }
    Ok(())
}

fn map_history(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut map = HeaderMap::new();
    let mut model: Model = Vec::new();
    let mut log: Vec<String> = Vec::new();
    let mut systems: std::collections::BTreeMap<String, String> = Default::default();
    // the spelling each name was first given, kept as long as it stays in the map
    let mut spelled: std::collections::HashMap<String, String> = Default::default();
    let pool = {
        let mut p = src.list(4, 3, tricky_name);
        p.push(tricky_name(src));
        p
    };
    let fill = match src.large(2500) {
        Some(n) => n,
        None => src.stretch(150, 9),
    };
    for i in 0..fill {
        let (n, v) = (format!("X-Fill-{}", i), src.bulk_of(i % 5, b"abc01"));
        if i == 0 {
            log.push("filled".into());
        }
        if find(&model, &n).is_none() {
            map.insert(mk_name(src, &n), mk_value(src, &v));
            model.push((n, v));
        }
    }
    let r = (|| -> R {
        let mut n = 0;
        while src.more(n, 24, 8) {
            n += 1;
            let base = src.pick(&pool).clone();
            let name = recase(src, &base);
            match src.upto(12) {
                0..=2 => {
                    let v = hvalue_raw(src);
                    log.push(format!("insert({:?}, {:?})", name, show(&v)));
                    let (a, b) = (mk_name(src, &name), mk_value(src, &v));
                    map.insert(a, b);
                    match find(&model, &name) {
                        Some(i) => {
                            model[i].1 = v;
                            ctx.class("insert over existing");
                        }
                        None => model.push((name, v)),
                    }
                }
                3 | 4 => {
                    let v = hvalue_raw(src);
                    log.push(format!("push({:?}, {:?})", name, show(&v)));
                    let (a, b) = (mk_name(src, &name), mk_value(src, &v));
                    map.push(a, b);
                    match find(&model, &name) {
                        Some(i) => {
                            model[i].1.push(b';');
                            model[i].1.extend_from_slice(&v);
                            ctx.class("append to existing");
                        }
                        None => model.push((name, v)),
                    }
                }
                5 | 6 => {
                    log.push(format!("remove({:?})", name));
                    let got = if src.bool() {
                        map.remove(&name)
                    } else {
                        let a = mk_name(src, &name);
                        map.remove(&a)
                    };
                    let want = find(&model, &name).map(|i| model.remove(i).1);
                    ctx.class_if(want.is_some(), "remove existing");
                    same!("remove", got.map(|v| v.as_bytes().to_vec()), want);
                }
                7 => {
                    let v = hvalue_raw(src);
                    log.push(format!("[{:?}] = {:?}", name, show(&v)));
                    map[leak(&name)] = mk_value(src, &v);
                    match find(&model, &name) {
                        Some(i) => model[i].1 = v,
                        None => model.push((name, v)),
                    }
                    ctx.class("index assignment");
                }
                8 => {
                    // touching a missing index creates an empty value
                    log.push(format!("touch [{:?}]", name));
                    let cur = map.index_mut_bytes(&name);
                    match find(&model, &name) {
                        Some(i) => same!("index_mut", cur, model[i].1),
                        None => {
                            same!("index_mut on a missing name", cur, Vec::<u8>::new());
                            model.push((name, Vec::new()))
                        }
                    }
                }
                9 => {
                    if let Some(i) = find(&model, &name) {
                        let v = hvalue_raw(src);
                        log.push(format!("get_mut_value({:?}) = {:?}", name, show(&v)));
                        *map.get_mut_value(&name) = mk_value(src, &v);
                        model[i].1 = v;
                    }
                }
                10 => {
                    log.push("iter_mut: append '!'".into());
                    for (_, v) in map.iter_mut() {
                        let mut b = v.as_bytes().to_vec();
                        b.push(b'!');
                        *v = HeaderValue::from_bytes(&b);
                    }
                    for (_, v) in model.iter_mut() {
                        v.push(b'!');
                    }
                }
                11 => {
                    // named values kept beside the headers
                    let (k, v) = (text(src, 3), text(src, 4));
                    log.push(format!("system_insert({:?}, {:?})", k, v));
                    map.system_insert(k.clone(), v.clone());
                    systems.insert(k, v);
                    for i in 0..src.stretch(60, 8) {
                        map.system_insert(format!("sys{}", i), format!("{}", i));
                        systems.insert(format!("sys{}", i), format!("{}", i));
                    }
                    ctx.class("system value");
                }
                _ => {
                    if src.chance(1, 4) {
                        log.push("clear".into());
                        map.clear();
                        model.clear();
                        ctx.class("clear");
                    } else {
                        log.push("clone".into());
                        let c = map.clone();
                        ensure!(c == map, "a clone differs from the original");
                        map = c;
                    }
                }
            }
            let probes = vec![pool[0].clone(), tricky_name(src)];
            check_map(&map, &model, &probes, n)?;
            if model.len() < 64 || n < 4 {
                let now: std::collections::HashMap<String, String> =
                    map_list(&map).into_iter().map(|(n, _)| (n.to_ascii_lowercase(), n)).collect();
                for (k, text) in &now {
                    if let Some(first) = spelled.get(k) {
                        same!("spelling of a name already in the map", text, first);
                    }
                }
                spelled = now;
            }
            for (k, v) in &systems {
                same!(format!("system_get({:?})", k), map.system_get(k), Some(v));
            }
            let k = if src.bool() { text(src, 3) } else { probes[0].clone() };
            same!(format!("system_get({:?})", k), map.system_get(&k), systems.get(&k));
        }
        ctx.nontrivial(n >= 3);
        let by_value: Model =
            map.clone().into_iter().map(|(n, v)| (n.name().to_string(), v.as_bytes().to_vec())).collect();
        ensure!(same_headers(&by_value, &model), "into_iter differs: {}", show_headers(&by_value));
        // through the builders' headers()
        let has_ua = find(&model, "user-agent").is_some();
        let req = Request::builder().headers(map.clone()).body(()).map_err(|e| format!("{:?}", e))?;
        let mut want = model.clone();
        if !has_ua {
            want.push(("user-agent".into(), b"wenmeng".to_vec()));
        }
        let got = map_list(req.headers());
        ensure!(same_headers(&got, &want), "Builder::headers: {}", show_headers(&got));
        let has_server = find(&model, "server").is_some();
        let res = Response::builder().headers(map).body(()).map_err(|e| format!("{:?}", e))?;
        let mut want = model.clone();
        if !has_server {
            want.push(("server".into(), b"wenmeng".to_vec()));
        }
        let got = map_list(res.headers());
        ensure!(same_headers(&got, &want), "Builder::headers: {}", show_headers(&got));
        Ok(())
    })();
    ctx.input("history", &log);
    r
}

trait TouchIndex {
    fn index_mut_bytes(&mut self, n: &str) -> Vec<u8>;
}
impl TouchIndex for HeaderMap {
    fn index_mut_bytes(&mut self, n: &str) -> Vec<u8> {
        let v: &mut HeaderValue = &mut self[leak(n)];
        v.as_bytes().to_vec()
    }
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "histories of 0-24 operations (insert, push, remove, index assignment, index touch, get_mut_value, iter_mut, clear, clone, system values) over a small pool of names with many near-equal bytes, compared after every operation with a list model through every lookup, iteration and the serialised form, in some maps among up to 2500 other headers. Non-trivial: at least 3 operations.",
        assumptions: &["names are RFC 7230 tokens or pseudo-header names (whose maps have no HTTP/1 form), values contain no CR/LF"],
        subs: vec![
            sub("map_history", Kind::Random(12_000), map_history),
            sub("large", Kind::Random(60), |s, c| {
                s.arm(12);
                map_history(s, c)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C09
fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn same_name(a: &str, b: &str) -> bool {
    // ASCII case folding, written out independently of the library
    let f = |s: &str| -> Vec<u8> { s.bytes().map(|c| if (b'A'..=b'Z').contains(&c) { c + 32 } else { c }).collect() };
    f(a) == f(b)
}

fn cmp_names(x: &HeaderName, a: &str, y: &HeaderName, b: &str) -> R {
    let want = same_name(a, b);
    same!(format!("{:?} == {:?} (names)", a, b), x == y, want);
    same!(format!("{:?} == {:?} (names, swapped)", b, a), y == x, want);
    same!(format!("{:?} == {:?} (name, str)", a, b), *x == b, want);
    let bs: &[u8] = b.as_bytes();
    same!(format!("{:?} == {:?} (name, bytes)", a, b), *x == bs, want);
    same!(format!("{:?} == {:?} (bytes, name)", b, a), bs == *x, want);
    same!(
        format!("eq_bytes_ignore_ascii_case({:?}, {:?})", a, b),
        Helper::eq_bytes_ignore_ascii_case(a.as_bytes(), bs),
        want
    );
    if want {
        ensure!(hash_of(x) == hash_of(y), "{:?} and {:?} are equal but hash differently", a, b);
    }
    Ok(())
}

fn any_name(src: &mut Src) -> String {
    match src.upto(4) {
        0 => tricky_name(src),
        1 | 2 => hname(src),
        3 => text(src, 6),
        _ => {
            let n = src.range(0, 5) as usize;
            (0..n).map(|_| src.upto(127) as u8 as char).collect()
        }
    }
}

fn name_pairs(src: &mut Src, ctx: &mut Ctx) -> R {
    let a = any_name(src);
    let b: String = match src.upto(4) {
        0 => recase(src, &a),
        1 | 2 => {
            // differ in one byte, often by exactly 32
            let mut v = a.clone().into_bytes();
            if v.is_empty() {
                "a".into()
            } else {
                let i = src.below(v.len());
                v[i] = match src.upto(2) {
                    0 => v[i] ^ 0x20,
                    1 => v[i].wrapping_add(32),
                    _ => src.upto(127) as u8,
                };
                String::from_utf8(v).unwrap_or_else(|_| a.to_ascii_uppercase())
            }
        }
        3 => {
            let mut s = a.clone();
            s.push(*src.pick(&['a', ' ', '\0', '-']));
            s
        }
        _ => any_name(src),
    };
    let x = mk_name(src, &a);
    let y = mk_name(src, &b);
    ctx.input("a", &a);
    ctx.input("b", &b);
    ctx.class(if same_name(&a, &b) { "equal" } else { "different" });
    ctx.nontrivial(a != b);
    cmp_names(&x, &a, &y, &b)?;
    same!("the name itself", x.name(), &a[..]);
    Ok(())
}

fn byte_pairs(src: &mut Src, ctx: &mut Ctx) -> R {
    let (a, b) = ((src.index / 128) as u8, (src.index % 128) as u8);
    let (s, t) = (format!("k{}z", a as char), format!("K{}z", b as char));
    ctx.input("a", &s);
    ctx.input("b", &t);
    ctx.nontrivial(true);
    let x = HeaderName::from_bytes(s.as_bytes()).ok_or("from_bytes")?;
    let y = HeaderName::try_from(t.clone()).map_err(|e| format!("{:?}", e))?;
    cmp_names(&x, &s, &y, &t)
}

fn constants(src: &mut Src, ctx: &mut Ctx) -> R {
    // every standard name: constant, parsed and static forms agree
    let consts: &[(HeaderName, &str)] = &[
        (HeaderName::HOST, "host"),
        (HeaderName::CONTENT_LENGTH, "content-length"),
        (HeaderName::CONTENT_TYPE, "content-type"),
        (HeaderName::CONNECTION, "connection"),
        (HeaderName::TRANSFER_ENCODING, "transfer-encoding"),
        (HeaderName::UPGRADE, "upgrade"),
        (HeaderName::COOKIE, "cookie"),
        (HeaderName::SET_COOKIE, "set-cookie"),
        (HeaderName::REFERER, "referer"),
        (HeaderName::USER_AGENT, "user-agent"),
        (HeaderName::ACCEPT, "accept"),
        (HeaderName::ACCEPT_CHARSET, "accept-charset"),
        (HeaderName::ACCEPT_ENCODING, "accept-encoding"),
        (HeaderName::CACHE_CONTROL, "cache-control"),
        (HeaderName::DATE, "date"),
        (HeaderName::ETAG, "etag"),
        (HeaderName::LOCATION, "location"),
        (HeaderName::SERVER, "server"),
        (HeaderName::VIA, "via"),
        (HeaderName::AUTHORIZATION, "authorization"),
        (HeaderName::WWW_AUTHENTICATE, "www-authenticate"),
        (HeaderName::IF_MODIFIED_SINCE, "if-modified-since"),
    ];
    let i = (src.index as usize) % consts.len();
    let j = (src.index as usize) / consts.len();
    let (a, an) = &consts[i];
    let (b, bn) = &consts[j];
    ctx.input("a", an);
    ctx.input("b", bn);
    ctx.nontrivial(true);
    cmp_names(a, an, b, bn)?;
    let up = bn.to_ascii_uppercase();
    let u = HeaderName::from_bytes(up.as_bytes()).ok_or("from_bytes")?;
    cmp_names(a, an, &u, &up)?;
    let l = HeaderName::from_bytes(bn.as_bytes()).ok_or("from_bytes")?;
    cmp_names(a, an, &l, bn)
}

fn value_pairs(src: &mut Src, ctx: &mut Ctx) -> R {
    let a = match src.upto(3) {
        0 => hvalue_raw(src),
        1 => src.bytes(12),
        2 => {
            let n = src.scaled(14) as usize;
            src.bulk(n)
        }
        _ => text(src, 8).into_bytes(),
    };
    let b = match src.upto(6) {
        6 => {
            let keep = if src.bool() { a.len().saturating_sub(1) } else { src.below(a.len() + 1) };
            a[..keep].to_vec()
        }
        0 => a.clone(),
        5 => {
            // what the value looks like as text
            ctx.class("shown form");
            let v = HeaderValue::from_bytes(&a);
            if src.bool() { v.to_string().into_bytes() } else { a.escape_ascii().to_string().into_bytes() }
        }
        1 => a.to_ascii_uppercase(),
        2 => {
            let mut v = a.clone();
            if v.is_empty() {
                v.push(0);
            } else {
                let i = src.below(v.len());
                v[i] ^= *src.pick(&[0x20u8, 0x80, 1]);
            }
            v
        }
        3 => {
            let mut v = a.clone();
            v.push(*src.pick(b" \0a"));
            v
        }
        _ => src.bytes(12),
    };
    let x = mk_value(src, &a);
    let y = mk_value(src, &b);
    ctx.bytes("a", &a);
    ctx.bytes("b", &b);
    let want = a == b;
    ctx.class(if want { "equal" } else { "different" });
    ctx.nontrivial(!a.is_empty());
    same!("value == value", x == y, want);
    same!("value == value (swapped)", y == x, want);
    same!("value == bytes", x == b[..], want);
    same!("bytes == value", b[..] == x, want);
    if let Ok(s) = std::str::from_utf8(&b) {
        same!("value == str", x == s, want);
        same!("str == value", s == x, want);
    }
    same!("as_bytes", x.as_bytes(), &a[..]);
    same!("bytes_len", x.bytes_len(), a.len());
    if want {
        ensure!(hash_of(&x) == hash_of(&y), "equal values hash differently");
    }
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "pairs of names related by re-casing, a one-byte change (often by exactly 32), a longer tail, or unrelated, made by every constructor and compared in every direction; all 128x128 pairs of ASCII bytes in a name; pairs of standard-name constants; pairs of values from every constructor. Non-trivial: the two texts differ (names) / are non-empty (values).",
        assumptions: &["names are valid UTF-8 (from_bytes is lossy otherwise)"],
        subs: vec![
            sub("byte_pairs", Kind::Every(128 * 128), byte_pairs),
            sub("constants", Kind::Every(22 * 22), constants),
            sub("name_pairs", Kind::Random(120_000), name_pairs),
            sub("value_pairs", Kind::Random(80_000), value_pairs),
        ],
    }
}

// ------------------------------------------------------------------ C10
/// Independent reading of a decimal numeral.
fn numeral(b: &[u8], signed: bool) -> Option<i128> {
    let (neg, d) = if signed && b.first() == Some(&b'-') { (true, &b[1..]) } else { (false, b) };
    if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v: i128 = 0;
    for c in d {
        v = v * 10 + (*c - b'0') as i128;
        if v > 1 << 100 {
            v = 1 << 100;
        }
    }
    Some(if neg { -v } else { v })
}

fn num_text(src: &mut Src) -> Vec<u8> {
    let bounds: &[i128] = &[
        0,
        1,
        9,
        10,
        i64::MAX as i128,
        i64::MAX as i128 + 1,
        i64::MAX as i128 - 1,
        i64::MIN as i128,
        i64::MIN as i128 - 1,
        i64::MIN as i128 + 1,
        u64::MAX as i128,
        u64::MAX as i128 + 1,
        u64::MAX as i128 - 1,
        u32::MAX as i128,
        u32::MAX as i128 + 1,
        922337203685477580,
        922337203685477581,
        1844674407370955161,
        1844674407370955162,
    ];
    if src.chance(1, 40) {
        // no digit at all
        return src.pick(&[&b""[..], b"-", b"--", b"+"]).to_vec();
    }
    // long ones: digits, zeros in front, or any text
    let long = src.stretch(12, 10);
    if long > 0 {
        let sign = if src.chance(1, 6) { "-" } else { "" };
        let fill: String = match src.upto(3) {
            0 => "0".repeat(long),
            1 => "9".repeat(long),
            2 => String::from_utf8(src.bulk_of(long, b"0123456789")).unwrap(),
            _ => String::from_utf8(src.bulk_of(long, b"0123456789 ,-abcdefx")).unwrap(),
        };
        let tail = if src.bool() { String::new() } else { src.scaled(64).to_string() };
        return format!("{}{}{}", sign, fill, tail).into_bytes();
    }
    match src.upto(7) {
        0 => src.pick(bounds).to_string().into_bytes(),
        1 => {
            let b = *src.pick(bounds) * 10 + src.upto(9) as i128;
            b.to_string().into_bytes()
        }
        2 => (src.scaled(64) as i128 - if src.bool() { 1 << 63 } else { 0 }).to_string().into_bytes(),
        3 => {
            let z = src.upto(25) as usize;
            let n = src.scaled(64);
            let sign = if src.chance(1, 3) { "-" } else { "" };
            format!("{}{}{}", sign, "0".repeat(z), n).into_bytes()
        }
        4 => {
            let n = src.range(1, 30) as usize;
            (0..n).map(|_| *src.pick(b"0123456789")).collect()
        }
        5 => {
            let n = src.range(1, 6) as usize;
            (0..n).map(|_| *src.pick(b"01-9 +.ex,")).collect()
        }
        6 => {
            // a numeral with one byte changed
            let mut v = src.scaled(64).to_string().into_bytes();
            let i = src.below(v.len() + 1);
            let b = *src.pick(b"-+ .x\0/:\xb2\t_");
            if src.bool() || i == v.len() {
                v.insert(i, b);
            } else {
                v[i] = b;
            }
            v
        }
        _ => {
            let mut v = hvalue_raw(src);
            if v.is_empty() {
                v.push(b'x');
            }
            v
        }
    }
}

fn convert(src: &mut Src, ctx: &mut Ctx) -> R {
    let t = num_text(src);
    let v = mk_value(src, &t);
    ctx.bytes("text", &t);
    ctx.input("form", &matches!(v, HeaderValue::Stand(_)));
    let u: Result<usize, _> = (&v).try_into();
    let i: Result<isize, _> = (&v).try_into();
    let wu = numeral(&t, false).and_then(|x| usize::try_from(x).ok());
    let wi = numeral(&t, true).and_then(|x| isize::try_from(x).ok());
    ctx.class_if(wu.is_some() || wi.is_some(), "number that fits");
    ctx.class_if(numeral(&t, true).is_some() && wi.is_none(), "number too large for isize");
    ctx.nontrivial(true);
    same!("as usize", u.ok(), wu);
    same!("as isize", i.ok(), wi);
    // the body length
    let mut m = HeaderMap::new();
    if src.bool() {
        m.insert("x-length", "17");
    }
    let n = recase(src, "content-length");
    m.insert(n, mk_value(src, &t));
    let want = wi.unwrap_or(0);
    same!("HeaderMap::get_body_len", m.get_body_len(), want);
    let b = Request::builder().headers(m.clone());
    same!("request Builder::get_body_len", b.get_body_len(), want);
    let r = b.body(()).map_err(|e| format!("{:?}", e))?;
    same!("Request::get_body_len", r.get_body_len(), want);
    let b = Response::builder().headers(m);
    same!("response Builder::get_body_len", b.get_body_len(), want);
    let r = b.body(()).map_err(|e| format!("{:?}", e))?;
    same!("Response::get_body_len", r.get_body_len(), want);
    Ok(())
}

fn stored(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.scaled(64) as usize;
    let s = if src.bool() { (src.scaled(63) as isize).wrapping_neg() } else { src.scaled(63) as isize };
    let s = if src.chance(1, 40) { isize::MIN } else { s };
    ctx.input("usize", &n);
    ctx.input("isize", &s);
    ctx.nontrivial(n > 9);
    let v = HeaderValue::try_from(n).map_err(|e| format!("{:?}", e))?;
    ensure!(v.as_bytes() == n.to_string().as_bytes(), "usize text of {}: {:?}", n, v);
    let back: Result<usize, _> = (&v).try_into();
    same!("usize read back", back.ok(), Some(n));
    let v = HeaderValue::try_from(s).map_err(|e| format!("{:?}", e))?;
    ensure!(v.as_bytes() == s.to_string().as_bytes(), "isize text of {}: {:?}", s, v);
    let back: Result<isize, _> = (&v).try_into();
    same!("isize read back", back.ok(), Some(s));
    let m = HeaderMap::new();
    same!("body length without headers", m.get_body_len(), 0);
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "numerals around every power-of-two and power-of-ten limit, with leading zeros, signs and up to 30 digits, and near-numerals (one wrong byte, several signs, other bytes), as static and owned values, converted to usize, isize and body length and compared with 128-bit arithmetic. Non-trivial: every case of `convert`; stored integers above 9.",
        assumptions: &["64-bit usize"],
        subs: vec![
            sub("convert", Kind::Random(120_000), convert),
            sub("stored", Kind::Random(40_000), stored),
        ],
    }
}

// ------------------------------------------------------------------ C33
fn facts(m: &HeaderMap) -> String {
    format!(
        "host={:?} referer={:?} ua={:?} cookie={:?} len={} keep={} chunked={} upgrade={:?}",
        m.get_host(),
        m.get_referer(),
        m.get_user_agent(),
        m.get_cookie(),
        m.get_body_len(),
        m.is_keep_alive(),
        m.is_chunked(),
        m.get_upgrade_protocol()
    )
}

fn near_token(src: &mut Src, tok: &str) -> String {
    match src.upto(6) {
        0 => tok.to_string(),
        6 => {
            // the token anywhere among other text
            let mut s = String::new();
            while src.more(s.len(), 40, 3) {
                let w = *src.pick(&["a", "close", "gzip;q=1", "x=\"y\"", "TE", ";", ",", " ", "\t", "=", ", ", "; ", "0", "(c)", "h2c"]);
                s.push_str(w);
            }
            s.push_str(tok);
            while src.more(s.len(), 60, 2) {
                let w = *src.pick(&["a", ";", ",", " ", "=", ", b", "; q=0", "1"]);
                s.push_str(w);
            }
            s.trim_matches([' ', '\t']).to_string()
        }
        1 => format!("{}, {}", src.pick(&["close", "gzip", "x", "HTTP2-Settings"]), tok),
        2 => format!("{}{}{}", src.pick(&["", "a, "]), tok, src.pick(&["", ", b", ";q=1"])),
        3 => src.pick(&["close", "", "gzip", "identity", "x", "keepalive", "Keep Alive", "chunke", "Upgrad"]).to_string(),
        4 => {
            let mut s = tok.to_string();
            let i = src.below(s.len());
            s.remove(i);
            s
        }
        _ => text(src, 6).chars().filter(|c| *c != '\r' && *c != '\n').collect::<String>().trim_matches([' ', '\t']).to_string(),
    }
}

/// What a case-exact or case-insensitive reading of a token list says; None
/// when the two disagree (then no claim is made).
fn token_says(v: &str, tok: &str) -> Option<bool> {
    let exact = v.contains(tok);
    let loose = v.to_ascii_lowercase().contains(&tok.to_ascii_lowercase());
    if exact == loose {
        Some(exact)
    } else {
        None
    }
}

fn colon_port(src: &mut Src) -> String {
    match src.upto(2) {
        0 => String::new(),
        _ => format!(":{}", port(src)),
    }
}
fn map_facts(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut list: Vec<(String, String)> = Vec::new();
    let names = [
        "host", "referer", "user-agent", "cookie", "content-length", "connection", "transfer-encoding", "upgrade", ":authority",
    ];
    for n in names {
        if src.bool() {
            let v = match n {
                n if n != "content-length" && src.chance(1, 6) => String::new(),
                "host" => host(src) + &colon_port(src),
                ":authority" => host(src) + &colon_port(src),
                "content-length" if src.chance(1, 4) => String::from_utf8(num_text(src)).unwrap_or_default(),
                "content-length" => src.scaled(40).to_string(),
                "connection" => {
                    let a = near_token(src, "Keep-Alive");
                    let b = near_token(src, "Upgrade");
                    if src.bool() {
                        format!("{}, {}", a, b)
                    } else if src.bool() {
                        a
                    } else {
                        b
                    }
                }
                "transfer-encoding" => near_token(src, "chunked"),
                "upgrade" => src.pick(&["websocket", "h2c", "TLS/1.0, HTTP/1.1", ""]).to_string(),
                _ => text(src, 12).chars().filter(|c| *c != '\r' && *c != '\n').collect(),
            };
            list.push((recase(src, n), v));
        }
    }
    let get = |n: &str| list.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.clone());
    let want_host = get("host").or_else(|| get(":authority").map(|a| a.split(':').next().unwrap_or("").to_string()));
    let decoys = {
        let mut d: Vec<(String, Vec<u8>)> = Vec::new();
        for _ in 0..src.upto(5) {
            let n = match src.upto(3) {
                0 => src
                    .pick(&["x-host", "hosts", "hos", "cookie2", "set-cookie", "user-agen", "x-user-agent", "content-lengt", "content-length-x", "connectio", "proxy-connection", "te", "transfer-encodin", "upgrade-insecure-requests", "referrer", "origin", "authority", ":path", "forwarded", "x-forwarded-host", "keep-alive"])
                    .to_string(),
                1 => {
                    // one byte of a real name moved by 32
                    let mut b = src.pick(&names).as_bytes().to_vec();
                    let i = src.below(b.len());
                    b[i] = b[i].wrapping_sub(64).max(0x21);
                    String::from_utf8(b).unwrap_or_else(|_| "z".into())
                }
                _ => hname(src),
            };
            let v = match src.upto(4) {
                0 => b"Keep-Alive".to_vec(),
                1 => b"chunked".to_vec(),
                2 => b"Upgrade".to_vec(),
                3 => b"12345".to_vec(),
                _ => hvalue(src),
            };
            if !names.iter().any(|x| x.eq_ignore_ascii_case(&n)) && !contains_name(&d, &n) {
                d.push((n, v));
            }
        }
        d
    };
    let mut all: Vec<(String, Vec<u8>)> = list.iter().map(|(n, v)| (n.clone(), v.clone().into_bytes())).collect();
    let plain = mk_map(src, &all);
    all.extend(decoys);
    src.shuffle(&mut all);
    let many = fillers(src);
    if !many.is_empty() {
        let k = src.upto(all.len() as u64) as usize;
        all.splice(k..k, many);
        ctx.class("many headers");
    }
    ctx.input("headers", &show_headers(&all));
    ctx.nontrivial(list.len() >= 2);
    let m = mk_map(src, &all);
    same!("get_host", m.get_host(), want_host);
    same!("get_referer", m.get_referer(), get("referer"));
    same!("get_user_agent", m.get_user_agent(), get("user-agent"));
    same!("get_cookie", m.get_cookie(), get("cookie"));
    same!("get_body_len", m.get_body_len(), get("content-length").and_then(|v| numeral(v.as_bytes(), true)).and_then(|v| isize::try_from(v).ok()).unwrap_or(0));
    if let Some(w) = token_says(&get("connection").unwrap_or_default(), "Keep-Alive") {
        same!("is_keep_alive", m.is_keep_alive(), w);
        ctx.class_if(w, "keep-alive");
    }
    if let Some(w) = token_says(&get("transfer-encoding").unwrap_or_default(), "chunked") {
        same!("is_chunked", m.is_chunked(), w);
        ctx.class_if(w, "chunked");
    }
    match token_says(&get("connection").unwrap_or_default(), "Upgrade") {
        Some(true) => {
            same!("get_upgrade_protocol", m.get_upgrade_protocol(), get("upgrade"));
            ctx.class_if(get("upgrade").is_some(), "upgrade");
        }
        Some(false) => same!("get_upgrade_protocol", m.get_upgrade_protocol(), None),
        None => {}
    }
    same!("facts with decoys and another order", facts(&m), facts(&plain));
    {
        // octets that are no text are shown as replacement characters
        let (mut odd, raw) = (m.clone(), hvalue_raw(src));
        let name = *src.pick(&["host", "referer", "user-agent", "cookie"]);
        odd.insert(recase(src, name), HeaderValue::from_bytes(&raw));
        let got = match name {
            "host" => odd.get_host(),
            "referer" => odd.get_referer(),
            "user-agent" => odd.get_user_agent(),
            _ => odd.get_cookie(),
        };
        ctx.class_if(std::str::from_utf8(&raw).is_err(), "octets that are no text");
        same!(format!("{} of {}", name, show(&raw)), got, Some(String::from_utf8_lossy(&raw).into_owned()));
    }
    // the same answers through a request and a response object
    let mut r = Request::new();
    *r.headers_mut() = m.clone();
    same!("Request::get_host", r.get_host(), want_host);
    same!("Request::get_referer", r.get_referer(), get("referer"));
    same!("Request::get_user_agent", r.get_user_agent(), get("user-agent"));
    same!("Request::get_cookie", r.get_cookie(), get("cookie"));
    same!("Request::get_body_len", r.get_body_len(), m.get_body_len());
    same!("Request::is_keep_alive", r.is_keep_alive(), m.is_keep_alive());
    let c = r.replace_clone(());
    same!("facts of a cloned request", facts(c.headers()), facts(&m));
    // and when they arrive over the wire, with spaces and tabs around the values
    let mut wire = b"HTTP/1.1 200 OK\r\n".to_vec();
    let mut sent: Vec<(String, Vec<u8>)> = Vec::new();
    for (n, v) in &all {
        if !n.bytes().all(|b| TCHAR.contains(&b)) || n.is_empty() || v.iter().any(|b| *b == b'\r' || *b == b'\n') {
            continue;
        }
        let blank = |b: &u8| *b == b' ' || *b == b'\t';
        let from = v.iter().position(|b| !blank(b)).unwrap_or(v.len());
        let to = v.iter().rposition(|b| !blank(b)).map_or(from, |i| i + 1);
        sent.push((n.clone(), v[from..to].to_vec()));
        wire.extend(n.as_bytes());
        wire.push(b':');
        wire.extend(ows(src));
        wire.extend(v);
        wire.extend(ows(src));
        wire.extend(b"\r\n");
    }
    wire.extend(b"\r\n");
    ctx.bytes("wire", &wire);
    let mut r = Response::new(());
    r.parse(&wire).map_err(|e| format!("refused: {:?}", e))?;
    same!("facts of a message received", facts(r.headers()), facts(&mk_map(src, &sent)));
    Ok(())
}

fn request_target(src: &mut Src, ctx: &mut Ctx) -> R {
    let h = host(src);
    let p = if src.bool() { Some(port(src)) } else { None };
    let hh = host(src);
    let hp = if src.bool() { Some(port(src)) } else { None };
    let with_host = src.bool();
    let hostval = match hp {
        Some(x) => format!("{}:{}", hh, x),
        None => hh.clone(),
    };
    let kind = src.upto(2);
    let auth = match p {
        Some(x) => format!("{}:{}", h, x),
        None => h.clone(),
    };
    let scheme = *src.pick(&["http", "https", "ws", "wss", "ftp"]);
    let start = match kind {
        0 => "GET /a:b@c?d:e HTTP/1.1".to_string(),
        1 => format!("GET {}://{}{} HTTP/1.1", scheme, auth, src.pick(&["/", "/a", "", "/x?y=http://z:1/", "?q"])),
        _ => format!("CONNECT {} HTTP/1.1", auth),
    };
    let mut lines: Vec<String> = vec!["X-Host: other:99".into(), "Origin: http://o:1".into()];
    let cut = src.below(3);
    lines.truncate(cut);
    if with_host {
        let i = src.below(lines.len() + 1);
        lines.insert(i, format!("{}: {}", recase(src, "host"), hostval));
    }
    let k = src.below(lines.len() + 1);
    lines.splice(k..k, fillers(src).into_iter().map(|(n, v)| format!("{}: {}", n, String::from_utf8(v).unwrap())));
    let wire = format!("{}\r\n{}\r\n", start, lines.iter().map(|l| format!("{}\r\n", l)).collect::<String>());
    ctx.bytes("wire", wire.as_bytes());
    ctx.nontrivial(true);
    let mut r = Request::new();
    r.parse(wire.as_bytes()).map_err(|e| format!("refused: {:?}", e))?;
    let default = match scheme {
        "http" | "ws" => 80,
        "https" | "wss" => 443,
        _ => 21,
    };
    let (wh, wp) = match kind {
        0 if with_host => {
            ctx.class("host header");
            (Some(hh), Some(hp.unwrap_or(80)))
        }
        0 => {
            ctx.class("no host");
            (None, None)
        }
        1 => {
            ctx.class("absolute target");
            (Some(h), Some(p.unwrap_or(default)))
        }
        _ => {
            ctx.class("CONNECT target");
            (Some(h), Some(p.unwrap_or(80)))
        }
    };
    same!("get_host", r.get_host(), wh);
    same!("url().domain", r.url().domain, wh);
    if wh.is_some() {
        same!("url().port", r.url().port, wp);
        same!("get_connect_url", r.get_connect_url(), Some(format!("{}:{}", wh.clone().unwrap(), wp.unwrap())));
    } else {
        same!("get_connect_url", r.get_connect_url(), None);
    }
    Ok(())
}

pub fn c33() -> Prop {
    Prop {
        id: "C33",
        rule: "header maps with a random subset of the nine relevant headers in random case and order, plus decoy headers with near-equal names and tempting values, each answer compared with a name-exact reading and with the map without decoys; and wire requests with origin-form, absolute-form and CONNECT targets with and without Host. Non-trivial: at least two relevant headers / every request.",
        assumptions: &["hosts are registered names or IPv4 (no IPv6 literals)", "no claim where a token matches only when its case is ignored"],
        subs: vec![
            sub("map_facts", Kind::Random(60_000), map_facts),
            sub("request_target", Kind::Random(40_000), request_target),
        ],
    }
}
