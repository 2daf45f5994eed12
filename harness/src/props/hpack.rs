//! C14 C15 C16 C17: HPACK.
use super::gen::*;
use super::hpack_ref as href;
use super::hpack_ref::{Field, Table};
use crate::engine::*;
use crate::{ensure, same};
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::sync::{Arc, RwLock};
use webparse::http2::encoder::Encoder;
use webparse::http2::{Decoder, HeaderIndex, HuffmanDecoder, HuffmanEncoder};
use webparse::{HeaderName, HeaderValue};

fn show_fields(l: &[Field]) -> String {
    l.iter().map(|(n, v)| format!("{}={}", show(n), show(v))).collect::<Vec<_>>().join(" | ")
}

// ------------------------------------------------------------------ C14
fn huff_compare(s: &[u8]) -> R {
    let got = HuffmanDecoder::new().decode(s);
    match (got, href::huff_decode(s)) {
        (Ok(g), Some(w)) => ensure!(g == w, "{:02x?} decodes to \"{}\", expected \"{}\"", s, show(&g), show(&w)),
        (Err(_), None) => {}
        (Ok(g), None) => return Err(format!("{:02x?} decodes to \"{}\", expected an error", s, show(&g))),
        (Err(e), Some(w)) => return Err(format!("{:02x?} refused ({:?}), expected \"{}\"", s, e, show(&w))),
    }
    Ok(())
}

fn huff_both(s: &[u8]) -> R {
    let e = HuffmanEncoder::encode(s);
    let w = href::huff_encode(s);
    ensure!(e == w, "encoding of \"{}\": got {:02x?}, expected {:02x?}", show(s), e, w);
    let d = HuffmanDecoder::new().decode(&e).map_err(|x| format!("own encoding of \"{}\" refused: {:?}", show(s), x))?;
    ensure!(d == s, "encoding of \"{}\" decodes to \"{}\"", show(s), show(&d));
    let l = HuffmanEncoder::encode_lower(s);
    let w = href::huff_encode(&s.to_ascii_lowercase());
    ensure!(l == w, "lower-case encoding of \"{}\": got {:02x?}, expected {:02x?}", show(s), l, w);
    Ok(())
}

fn all_pairs(src: &mut Src, ctx: &mut Ctx) -> R {
    let i = src.index;
    let s: Vec<u8> = if i < 256 { vec![i as u8] } else { vec![((i - 256) >> 8) as u8, (i - 256) as u8] };
    ctx.bytes("string", &s);
    ctx.nontrivial(true);
    huff_both(&s)?;
    huff_compare(&s)
}

fn all_triples(src: &mut Src, ctx: &mut Ctx) -> R {
    // every 3-byte input of the decoder that starts with these two bytes
    let (a, b) = ((src.index >> 8) as u8, src.index as u8);
    ctx.bytes("first two bytes", &[a, b]);
    ctx.nontrivial(true);
    // the high-order codes are where long codes and EOS live; sample the rest
    let step = if a >= 0xfe { 1 } else { 16 };
    let start = if step == 1 { 0 } else { src.upto(15) };
    let mut c = start;
    while c < 256 {
        huff_compare(&[a, b, c as u8])?;
        c += step;
    }
    Ok(())
}

fn huff_strings(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = match src.large(1 << 20).map_or_else(|| src.upto(2), |n| 1000 + n as u64) {
        n if n >= 1000 => src.bulk(n as usize - 1000),
        0 => src.bytes(60),
        1 => {
            // favour symbols with long codes
            let n = src.size(30);
            (0..n).map(|_| *src.pick(&[0u8, 1, 10, 13, 22, 127, 128, 192, 200, 220, 240, 249, 255, b'0', b'a', b' '])).collect()
        }
        _ => match src.stretch(12, 14) {
            0 => src.payload(600),
            n => src.bulk(n),
        },
    };
    ctx.bytes("string", &s);
    ctx.nontrivial(s.len() > 1);
    ctx.class_if(s.iter().any(|b| href::HUFF[*b as usize].1 > 20), "long codes");
    huff_both(&s)
}

/// Bit strings made of symbol codes, EOS, cut codes and padding.
fn huff_bits(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut bits: Vec<bool> = Vec::new();
    let push = |bits: &mut Vec<bool>, c: u32, n: u8| {
        for i in (0..n).rev() {
            bits.push(c >> i & 1 == 1);
        }
    };
    let mut n = src.size(20);
    if src.chance(1, 12) {
        // many symbols first, often a power of two or one off
        n = match src.upto(2) {
            0 => src.scaled(12) as usize,
            _ => ((1usize << src.range(4, 12)) + src.upto(2) as usize) - 1,
        };
    }
    let head = src.bulk(n.saturating_sub(4));
    for b in head {
        let (c, l) = href::HUFF[b as usize];
        push(&mut bits, c, l);
    }
    for _ in 0..n.min(4) {
        let (c, l) = href::HUFF[src.byte() as usize];
        push(&mut bits, c, l);
    }
    match src.upto(7) {
        0 => {}
        1 => {
            ctx.class("EOS inside");
            push(&mut bits, 0x3fff_ffff, 30);
            for _ in 0..src.upto(2) {
                let (c, l) = href::HUFF[src.byte() as usize];
                push(&mut bits, c, l);
            }
        }
        2 => {
            ctx.class("cut code");
            let (c, l) = href::HUFF[src.byte() as usize];
            let k = src.upto(l as u64 - 1) as u8;
            push(&mut bits, c >> (l - k), k);
        }
        3 => {
            ctx.class("ones");
            for _ in 0..src.upto(40) {
                bits.push(true);
            }
        }
        4 => {
            ctx.class("other padding");
            for _ in 0..src.upto(12) {
                let b = src.bool();
                bits.push(b);
            }
        }
        5 => {
            ctx.class("cut at the front");
            let k = src.upto(bits.len() as u64) as usize;
            bits.drain(..k);
        }
        _ => {
            if !bits.is_empty() {
                ctx.class("flipped bit");
                let k = src.below(bits.len());
                bits[k] = !bits[k];
            }
        }
    }
    let pad = src.chance(7, 8);
    while bits.len() % 8 != 0 {
        bits.push(pad);
    }
    let s: Vec<u8> = bits.chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | *b as u8)).collect();
    ctx.input("encoded", &s);
    ctx.nontrivial(s.len() > 1);
    ctx.class_if(href::huff_decode(&s).is_some(), "valid");
    ctx.class_if(href::huff_decode(&s).is_none(), "invalid");
    huff_compare(&s)
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "all strings of one and two octets encoded, decoded and decoded as encodings (exhaustive); 3-octet encodings (all that start with fe or ff, a sixteenth of the rest); random strings biased to long codes; random sequences of codes with EOS, cut codes, excess or wrong padding and flipped bits, against an independent coder; strings of up to 1 MiB. Non-trivial: longer than one octet.",
        assumptions: &["the code table of golang.org/x/net/http2/hpack is RFC 7541 Appendix B"],
        subs: vec![
            sub("all_pairs", Kind::Every(256 + 65536), all_pairs),
            sub("all_triples", Kind::Every(65536), all_triples),
            sub("strings", Kind::Random(30_000), huff_strings),
            sub("large", Kind::Random(100), |s, c| {
                s.arm(20);
                huff_strings(s, c)
            }),
            sub("bits", Kind::Random(60_000), huff_bits),
        ],
    }
}

// ------------------------------------------------------------------ shared
fn fname(src: &mut Src) -> String {
    if src.chance(1, 40) {
        // HPACK carries any text as a name
        return super::gen::text(src, 12).to_ascii_lowercase();
    }
    match src.upto(5) {
        0 | 1 => href::STATIC[src.below(61)].0.to_string(),
        2 => src.pick(&["a", "b", "x-a", "x-b", "x-long-header-name"]).to_string(),
        3 => format!("x{}", src.upto(300)),
        4 => hname(src).to_ascii_lowercase(),
        _ => {
            let n = src.size(300);
            "n".repeat(n)
        }
    }
}
/// A string of eight-bit symbols whose coded length lies where the spelling
/// of an HPACK integer grows or carries.
pub fn edge_string(src: &mut Src) -> Vec<u8> {
    let n = match src.upto(5) {
        0 => 127usize,
        1 => 127 + 128 * src.range(1, 3) as usize,
        2 => 127 + 128 * 127,
        3 => 127 + 128 * 128,
        4 => 127 + 128 * 129,
        _ => 127 + 128 * src.range(4, 400) as usize,
    };
    vec![*src.pick(b"*;X"); n - 1 + src.upto(2) as usize]
}
fn fvalue(src: &mut Src, name: &str) -> Vec<u8> {
    let statics: Vec<&str> = href::STATIC.iter().filter(|e| e.0 == name).map(|e| e.1).collect();
    if !statics.is_empty() && src.chance(1, 3) {
        return src.pick(&statics).as_bytes().to_vec();
    }
    if src.chance(1, 300) {
        return src.payload(70_000);
    }
    if src.chance(1, 60) {
        return edge_string(src);
    }
    match src.upto(4) {
        0 => src.pick(&[&b""[..], b"a", b"b", b"gzip, deflate", b"/"]).to_vec(),
        1 => format!("{}", src.upto(200)).into_bytes(),
        2 => src.bytes(60),
        3 => hvalue_raw(src),
        _ => src.payload(5000),
    }
}
fn field(src: &mut Src, earlier: &[Field]) -> Field {
    if !earlier.is_empty() && src.chance(1, 2) {
        let f = src.pick(earlier).clone();
        if src.chance(1, 3) {
            let n = String::from_utf8(f.0.clone()).unwrap();
            let v = fvalue(src, &n);
            return (f.0, v);
        }
        match src.upto(5) {
            0 => return (f.0, tweak(src, &f.1, |_| true)),
            1 if f.0.is_ascii() => return (tweak(src, &f.0, |b| TCHAR.contains(&b) && !b.is_ascii_uppercase()), f.1),
            2 if f.1.len() < 200 => {
                let mut v = f.1.clone();
                v.extend(src.bulk(64));
                return (f.0, v);
            }
            _ => {}
        }
        return f;
    }
    let n = fname(src);
    let v = fvalue(src, &n);
    (n.into_bytes(), v)
}
fn lib_table(i: &HeaderIndex) -> Vec<Field> {
    i.to_vec().iter().map(|(n, v)| (n.as_bytes().to_vec(), v.as_bytes().to_vec())).collect()
}
fn ieq(a: &[Field], b: &[Field]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.eq_ignore_ascii_case(&y.0) && x.1 == y.1)
}
fn decode_lib(src: &mut Src, dec: &mut Decoder, block: &[u8]) -> Result<Vec<Field>, String> {
    let e = |x: webparse::WebError| format!("{:?}", x);
    let conv = |l: Vec<(HeaderName, HeaderValue)>| -> Vec<Field> {
        l.iter().map(|(n, v)| (n.as_bytes().to_vec(), v.as_bytes().to_vec())).collect()
    };
    match src.upto(2) {
        0 => Ok(conv(dec.decode(&mut Binary::from(block.to_vec())).map_err(e)?)),
        1 => {
            let mut b = BinaryMut::from(block.to_vec());
            let l = conv(dec.decode(&mut b).map_err(e)?);
            ensure!(b.remaining() == 0, "block not consumed: {} bytes left", b.remaining());
            Ok(l)
        }
        _ => {
            let mut out: Vec<Field> = Vec::new();
            let mut m = Metered::new(block);
            dec.decode_with_cb(&mut m, |n, v| out.push((n.as_bytes().to_vec(), v.as_bytes().to_vec()))).map_err(e)?;
            ensure!(m.data.is_empty(), "block not consumed: {} bytes left", m.data.len());
            Ok(out)
        }
    }
}
fn table_size(src: &mut Src) -> usize {
    match src.upto(5) {
        0 | 1 => 4096,
        2 => *src.pick(&[0usize, 1, 31, 32, 33, 64, 100, 128]),
        3 => src.scaled(17) as usize,
        4 => src.scaled(28) as usize,
        _ => src.upto(600) as usize,
    }
}

// ------------------------------------------------------------------ C42
fn int_len(v: usize, prefix: u32) -> usize {
    let mut o = Vec::new();
    href::put_int(&mut o, 0, prefix, v);
    o.len()
}
fn str_len(s: &[u8]) -> usize {
    let n = href::huff_encode(s).len();
    int_len(n, 7) + n
}
/// What a field may cost, given the table before it.
fn allowance(t: &Table, f: &Field) -> (usize, &'static str) {
    let (names, full) = t.find(&f.0, &f.1);
    if full.iter().any(|i| *i <= 61) {
        return (1, "static entry");
    }
    let known = href::STATIC.iter().any(|e| e.0.as_bytes() == &f.0[..]);
    if !known {
        if let Some(i) = full.iter().max() {
            return (int_len(*i, 7), "dynamic entry");
        }
    }
    // names that are in the static table without a value
    if let Some(i) = names.iter().find(|i| **i <= 61 && href::STATIC[**i - 1].1.is_empty()) {
        return (int_len(*i, 6) + str_len(&f.1), "static name");
    }
    (1 + str_len(&f.0) + str_len(&f.1), "literal")
}
fn compressed(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut enc = Encoder::new();
    let mut model = Table::new();
    let size = match src.upto(3) {
        0 => table_size(src),
        1 => 1 << 16,
        _ => 4096,
    };
    if size != 4096 {
        enc.index.write().unwrap().set_max_table_size(size);
        model.max = size;
        model.limit = size;
    }
    ctx.input("table size", &size);
    let many = src.chance(1, 8);
    let n = if many { src.range(60, 200) as usize } else { src.range(1, 20) as usize };
    let mut seen: Vec<Field> = Vec::new();
    let mut log: Vec<Field> = Vec::new();
    for _ in 0..n {
        let mut f = if !seen.is_empty() && src.bool() { src.pick(&seen).clone() } else { field(src, &seen) };
        f.0.make_ascii_lowercase();
        if many && f.1.len() > 40 {
            f.1.truncate(4);
        }
        seen.push(f.clone());
        log.push(f.clone());
        ctx.input("fields", &show_fields(&log));
        let (limit, how) = allowance(&model, &f);
        ctx.class(how);
        ctx.nontrivial(how != "literal");
        let mut o = BinaryMut::new();
        let name = recase(src, std::str::from_utf8(&f.0).unwrap());
        enc.encode_header_into((&mk_name(src, &name), &mk_value(src, &f.1)), &mut o).map_err(|e| format!("encode: {:?}", e))?;
        let b = o.chunk().to_vec();
        ensure!(b.len() <= limit, "{} ({}) takes {} bytes, {} are enough: {:02x?}", show_fields(&[f.clone()]), how, b.len(), limit, show(&b));
        let l = href::decode(&mut model, &b).ok_or_else(|| format!("an RFC 7541 decoder refuses {:02x?}", b))?;
        ensure!(ieq(&l, &[f.clone()]), "an RFC 7541 decoder reads {}, expected {}", show_fields(&l), show_fields(&[f]));
        for e in model.entries.iter_mut() {
            // names are compared without case
            e.0.make_ascii_lowercase();
        }
        if !href::STATIC.iter().any(|e| e.0.as_bytes() == &f.0[..]) && f.0.len() + f.1.len() + 32 <= model.max {
            let kept = model.entries.iter().any(|e| *e == f);
            ensure!(kept, "{} ({}) is not in the dynamic table afterwards", show_fields(&[f.clone()]), how);
        }
    }
    ctx.class_if(model.entries.len() > 66, "more than 66 dynamic entries");
    Ok(())
}
pub fn c42() -> Prop {
    Prop {
        id: "C42",
        rule: "histories of 1-200 fields (half of them repeats; static, dynamic, long and mixed-case names) encoded one at a time with one encoder of table size 0 to 2^28; each field's size is compared with what its best reference in the static table or, for other names, in a model of the dynamic table allows, the literal Huffman form being the upper limit. Non-trivial: a field for which a reference exists.",
        assumptions: &["fields whose name is in the static table need not use the dynamic table"],
        subs: vec![sub("compressed", Kind::Random(6_000), compressed)],
    }
}

// ------------------------------------------------------------------ C15
fn lockstep(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut enc = if src.bool() {
        Encoder::new()
    } else {
        Encoder::new_index(Arc::new(RwLock::new(HeaderIndex::new())), 16384)
    };
    let mut dec = if src.bool() { Decoder::new() } else { Decoder::new_index(Arc::new(RwLock::new(HeaderIndex::new()))) };
    let mut model = Table::new();
    let huge = src.chance(1, 60);
    let size = if huge { 1 << 17 } else { table_size(src) };
    if size != 4096 {
        enc.index.write().unwrap().set_max_table_size(size);
        dec.index.write().unwrap().set_max_table_size(size);
        model.max = size;
        model.limit = size;
    }
    ctx.input("table size", &size);
    let many = huge || src.chance(1, 6);
    let mut seen: Vec<Field> = Vec::new();
    let mut evicted = false;
    let blocks = src.range(1, if many { 12 } else { 6 });
    for b in 0..blocks {
        let n = if huge {
            src.range(60, 120) as usize
        } else if many {
            src.range(5, 40) as usize
        } else {
            src.size(8)
        };
        let mut list: Vec<Field> = Vec::new();
        for _ in 0..n {
            let mut f = field(src, &seen);
            if many && f.1.len() > 40 {
                f.1.truncate(4);
            }
            if src.chance(1, 6) {
                f.0 = recase(src, std::str::from_utf8(&f.0).unwrap()).into_bytes();
            }
            if seen.len() < 300 {
                seen.push((f.0.to_ascii_lowercase(), f.1.clone()));
            }
            list.push(f);
        }
        ctx.input("list", &show_fields(&list));
        let named: Vec<(HeaderName, HeaderValue)> =
            list.iter().map(|(n, v)| (mk_name(src, std::str::from_utf8(n).unwrap()), mk_value(src, v))).collect();
        let before = enc.index.read().unwrap().len();
        let block = match src.upto(2) {
            0 => enc.encode(named.iter().map(|(n, v)| (n, v))).chunk().to_vec(),
            1 => {
                let mut o = BinaryMut::new();
                enc.encode_into(named.iter().map(|(n, v)| (n, v)), &mut o).map_err(|e| format!("encode: {:?}", e))?;
                o.chunk().to_vec()
            }
            _ => {
                let mut o = BinaryMut::new();
                for (n, v) in &named {
                    enc.encode_header_into((n, v), &mut o).map_err(|e| format!("encode: {:?}", e))?;
                }
                o.chunk().to_vec()
            }
        };
        evicted |= enc.index.read().unwrap().len() < before + list.len() && before > 0;
        let got = decode_lib(src, &mut dec, &block).map_err(|e| format!("list {}: own block {:02x?} refused: {}", b, block, e))?;
        ensure!(ieq(&got, &list), "list {}: decoded {}, expected {}", b, show_fields(&got), show_fields(&list));
        let (ei, di) = (enc.index.read().unwrap(), dec.index.read().unwrap());
        let (et, dt) = (lib_table(&ei), lib_table(&di));
        ensure!(ieq(&et, &dt), "tables differ after list {}: encoder {}, decoder {}", b, show_fields(&et), show_fields(&dt));
        same!("table sizes", ei.get_size(), di.get_size());
        same!("table maxima", ei.get_max_table_size(), di.get_max_table_size());
        match href::decode(&mut model, &block) {
            None => return Err(format!("list {}: an RFC 7541 decoder refuses the block {:02x?}", b, block)),
            Some(l) => {
                ensure!(ieq(&l, &list), "list {}: an RFC 7541 decoder reads {}, expected {}", b, show_fields(&l), show_fields(&list))
            }
        }
        ctx.class_if(et.len() > 66, "more than 66 dynamic entries");
        ctx.class_if(et.len() > 256, "more than 256 dynamic entries");
        ctx.nontrivial(blocks > 1 && !et.is_empty());
    }
    ctx.class_if(evicted, "evictions or reuse");
    ctx.class_if(many, "long history");
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "histories of 1-12 header lists (static, repeated, dynamic, long and mixed-case names; values of any bytes up to 5000) encoded with one encoder and decoded with one decoder of equal table size (0 to 131071); after each list the lists, both tables and an RFC reference decoder are compared; a share of the lists has hundreds of fields or values of up to 512 KiB. Non-trivial: more than one list and a non-empty dynamic table.",
        assumptions: &["header names are UTF-8"],
        subs: vec![
            sub("lockstep", Kind::Random(2_500), lockstep),
            sub("large", Kind::Random(60), |s, c| {
                s.arm(19);
                lockstep(s, c)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C16
fn lib_state(dec: &Decoder, model: &Table) -> R {
    let i = dec.index.read().unwrap();
    let got = lib_table(&i);
    let want: Vec<Field> = model.entries.iter().cloned().collect();
    ensure!(got == want, "dynamic table: got {}, expected {}", show_fields(&got), show_fields(&want));
    same!("dynamic table size", i.get_size(), model.size());
    same!("dynamic table maximum", i.get_max_table_size(), model.max);
    Ok(())
}

struct Conn {
    dec: Decoder,
    model: Table,
    seen: Vec<Field>,
}
fn new_conn(src: &mut Src) -> Conn {
    let dec = Decoder::new();
    let mut model = Table::new();
    let limit = if src.chance(1, 20) { 1 << 17 } else { table_size(src) };
    if limit != 4096 {
        dec.index.write().unwrap().set_max_table_size(limit);
        model.limit = limit;
        model.max = limit;
    }
    Conn { dec, model, seen: Vec::new() }
}
/// One block from the reference encoder.
fn ref_block(src: &mut Src, ctx: &mut Ctx, c: &mut Conn, fields: usize, short: bool) -> (Vec<u8>, Vec<Field>) {
    let mut out = Vec::new();
    if src.chance(1, 4) {
        for _ in 0..src.range(1, 2) {
            let n = match src.upto(2) {
                0 => c.model.limit,
                1 => src.upto(c.model.limit as u64) as usize,
                _ => src.upto(c.model.limit.min(150) as u64) as usize,
            };
            href::put_int(&mut out, 0x20, 5, n);
            c.model.resize(n);
            ctx.class(if n >= 31 { "size update, multi-byte" } else { "size update" });
        }
    }
    let mut list = Vec::new();
    for _ in 0..fields {
        let mut f = field(src, &c.seen);
        if short {
            f.0.truncate((0..=8).rev().find(|n| std::str::from_utf8(&f.0[..f.0.len().min(*n)]).is_ok()).unwrap());
            f.1.truncate(3);
        }
        let l = href::encode_field(src, &mut c.model, &f, &mut out);
        ctx.class(l);
        ctx.class_if(f.1.len() > 126, "multi-byte string length");
        if c.seen.len() < 300 {
            c.seen.push(f.clone());
        }
        list.push(f);
    }
    (out, list)
}

fn conforming(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = new_conn(src);
    ctx.input("limit", &c.model.limit);
    let huge = c.model.limit == 1 << 17 && src.chance(1, 4);
    let many = huge || src.chance(1, 6);
    let blocks = src.range(1, 6);
    for b in 0..blocks {
        let n = if huge {
            src.range(100, 250) as usize
        } else if many {
            src.range(10, 50) as usize
        } else {
            src.size(8)
        };
        let (block, list) = ref_block(src, ctx, &mut c, n, many);
        ctx.input("block", &block);
        let got = decode_lib(src, &mut c.dec, &block).map_err(|e| format!("block {} ({}) refused: {}", b, show_fields(&list), e))?;
        ensure!(got == list, "block {}: decoded {}, expected {}", b, show_fields(&got), show_fields(&list));
        lib_state(&c.dec, &c.model).map_err(|e| format!("after block {}: {}", b, e))?;
        ctx.nontrivial(!list.is_empty() && !c.model.entries.is_empty());
    }
    ctx.class_if(many, "long history");
    Ok(())
}

fn hpack_faults(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = new_conn(src);
    ctx.input("limit", &c.model.limit);
    for _ in 0..src.upto(2) {
        let n = src.size(6);
        let (block, _) = ref_block(src, ctx, &mut c, n, true);
        ctx.input("block", &block);
        decode_lib(src, &mut c.dec, &block).map_err(|e| format!("well-formed block refused: {}", e))?;
    }
    let n = src.size(2);
    let (mut block, _) = ref_block(src, ctx, &mut c, n, true);
    let (first, prefix) = *src.pick(&[(0x80u8, 7u32), (0x40, 6), (0x00, 4), (0x10, 4)]);
    let fault;
    match src.upto(4) {
        0 => {
            fault = "index 0";
            block.push(0x80);
        }
        1 => {
            fault = "index beyond the tables";
            let over = match src.upto(3) {
                0 => 0,
                1 => src.upto(70) as usize,
                2 => src.scaled(24) as usize,
                _ => src.scaled(28) as usize,
            };
            href::put_int(&mut block, first, prefix, 62 + c.model.entries.len() + over);
            if first != 0x80 {
                href::put_str(&mut block, b"v", src.bool());
            }
        }
        2 => {
            fault = "size update above the limit";
            let over = match src.upto(1) {
                0 => 1,
                _ => 1 + src.scaled(27) as usize,
            };
            href::put_int(&mut block, 0x20, 5, c.model.limit + over);
        }
        3 => {
            fault = "truncated integer or string";
            let at = block.len();
            let mut f = field(src, &c.seen);
            f.1.truncate(200);
            let mut t = c.model.clone();
            href::encode_field(src, &mut t, &f, &mut block);
            let keep = if block.len() > at + 1 { at + 1 + src.below(block.len() - at - 1) } else { at };
            if keep == at {
                // a one-byte field cannot be truncated: start an integer instead
                block.truncate(at);
                block.push(first | ((1u16 << prefix) - 1) as u8);
                for _ in 0..src.upto(3) {
                    block.push(0x80 | src.byte());
                }
            } else {
                block.truncate(keep);
            }
        }
        _ => {
            fault = "truncated size update";
            block.push(0x3f);
            for _ in 0..src.upto(3) {
                block.push(0x80 | src.byte());
            }
        }
    }
    ctx.class(match fault {
        "index 0" => "fault: index 0",
        "index beyond the tables" => "fault: index beyond the tables",
        "size update above the limit" => "fault: size update above the limit",
        "truncated integer or string" => "fault: truncated integer or string",
        _ => "fault: truncated size update",
    });
    ctx.input("fault", &fault);
    ctx.input("last block", &block);
    ctx.nontrivial(true);
    let got = decode_lib(src, &mut c.dec, &block);
    if let Ok(g) = got {
        return Err(format!("{} accepted as {}", fault, show_fields(&g)));
    }
    Ok(())
}

/// A string of up to 4 MiB inside a block, between other fields.
fn long_strings(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = new_conn(src);
    ctx.input("limit", &c.model.limit);
    let lead = src.size(3);
    let (mut block, mut list) = ref_block(src, ctx, &mut c, lead, true);
    src.arm(22);
    let n = src.large(usize::MAX).unwrap_or(20_000);
    let value = src.bulk(n);
    let huffman = n <= 1 << 18 && src.bool();
    ctx.input("value length", &n);
    ctx.class(if n > 1 << 21 { "over 2 MiB" } else if n > 1 << 14 { "over 16 KiB" } else { "shorter" });
    let name = if src.chance(1, 8) { String::from_utf8(vec![b'n'; n.min(1 << 20)]).unwrap() } else { "x".into() };
    let (first, prefix) = *src.pick(&[(0x40u8, 6u32), (0x00, 4), (0x10, 4)]);
    href::put_int(&mut block, first, prefix, 0);
    href::put_str(&mut block, name.as_bytes(), false);
    href::put_str(&mut block, &value, huffman);
    let f: Field = (name.into_bytes(), value);
    if first == 0x40 {
        c.model.add(f.clone());
    }
    list.push(f);
    let tail = src.size(2);
    for _ in 0..tail {
        let g = field(src, &c.seen);
        href::encode_field(src, &mut c.model, &g, &mut block);
        list.push(g);
    }
    ctx.nontrivial(true);
    let got = decode_lib(src, &mut c.dec, &block).map_err(|e| format!("a block with a string of {} octets refused: {}", n, e))?;
    ensure!(got.len() == list.len(), "{} fields decoded, expected {}", got.len(), list.len());
    for (i, (g, w)) in got.iter().zip(&list).enumerate() {
        ensure!(g.0 == w.0 && g.1 == w.1, "field {} of {}: {} and {} octets that differ from the {} and {} expected", i, list.len(), g.0.len(), g.1.len(), w.0.len(), w.1.len());
    }
    lib_state(&c.dec, &c.model)
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "block sequences from a reference encoder that chooses randomly among all RFC 7541 representations (with Huffman or plain strings, any matching index, size updates up to the limit), compared field by field and table by table; the same with one seeded fault; and strings of up to 4 MiB between other fields. Non-trivial: fields decoded and a non-empty dynamic table, or a fault.",
        assumptions: &["header names are UTF-8", "size updates come at the start of a block", "integers take at most 5 octets"],
        subs: vec![
            sub("conforming", Kind::Random(4_000), conforming),
            sub("faults", Kind::Random(12_000), hpack_faults),
            sub("long_strings", Kind::Random(60), long_strings),
        ],
    }
}

// ------------------------------------------------------------------ C17
fn table_history(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = HeaderIndex::new();
    let mut model = Table::new();
    let mut log: Vec<String> = Vec::new();
    let mut seen: Vec<Field> = Vec::new();
    let long = src.chance(1, 10);
    let huge = long && src.chance(1, 8);
    if huge {
        t.set_max_table_size(1 << 17);
        model.resize(1 << 17);
        log.push("set_max_table_size(131072)".into());
    }
    let n = if huge {
        src.range(250, 600) as usize
    } else if long {
        src.range(60, 200) as usize
    } else {
        1 + src.size(40)
    };
    let mut evictions = false;
    for _ in 0..n {
        match src.upto(if huge { 500 } else if long { 12 } else { 5 }) {
            0 => {
                let s = table_size(src);
                log.push(format!("set_max_table_size({})", s));
                t.set_max_table_size(s);
                let l = model.entries.len();
                model.resize(s);
                evictions |= model.entries.len() < l;
            }
            1 => {
                let (name, value) = field(src, &seen);
                let name = recase(src, std::str::from_utf8(&name).unwrap());
                log.push(format!("find({:?}, \"{}\")", name, show(&value)));
                let (hn, hv) = (mk_name(src, &name), mk_value(src, &value));
                if let Some((i, full)) = t.find_header((&hn, &hv)) {
                    match model.get(i) {
                        None => {
                            ctx.input("history", &log);
                            return Err(format!("lookup returned index {} which does not exist", i));
                        }
                        Some(e) => {
                            let ok = e.0.eq_ignore_ascii_case(name.as_bytes()) && (!full || e.1 == value);
                            if !ok {
                                ctx.input("history", &log);
                                return Err(format!(
                                    "lookup returned ({}, {}) whose entry is {}={}",
                                    i,
                                    full,
                                    show(&e.0),
                                    show(&e.1)
                                ));
                            }
                        }
                    }
                    ctx.class(if full { "full match" } else { "name match" });
                }
            }
            _ => {
                let (name, mut value) = field(src, &seen);
                if long {
                    value.truncate(6);
                }
                log.push(format!("add({}, {})", show(&name), show(&value)));
                let (hn, hv) = (mk_name(src, std::str::from_utf8(&name).unwrap()), mk_value(src, &value));
                t.add_header(hn, hv);
                if seen.len() < 300 {
                    seen.push((name.clone(), value.clone()));
                }
                let l = model.entries.len();
                model.add((name, value));
                evictions |= model.entries.len() < l + 1;
            }
        }
        if src.chance(1, 20) {
            t = t.clone();
        }
        let check = || -> R {
            same!("size", t.get_size(), model.size());
            same!("maximum", t.get_max_table_size(), model.max);
            same!("length", t.len(), model.entries.len());
            let want: Vec<Field> = model.entries.iter().cloned().collect();
            let got = lib_table(&t);
            ensure!(got == want, "entries: got {}, expected {}", show_fields(&got), show_fields(&want));
            Ok(())
        };
        if let Err(e) = check() {
            ctx.input("history", &log);
            return Err(e);
        }
    }
    ctx.input("history", &log);
    ctx.nontrivial(!model.entries.is_empty() || evictions);
    ctx.class_if(evictions, "evictions");
    ctx.class_if(model.entries.len() > 66, "more than 66 entries");
    ctx.class_if(model.entries.len() > 256, "more than 256 entries");
    let far = [usize::MAX, usize::MAX - 61, 1 << 32, 62 + model.entries.len()];
    for i in (0..=63 + model.entries.len()).chain(far) {
        let got = t.get_from_index(i).map(|(n, v)| (n.as_bytes().to_vec(), v.as_bytes().to_vec()));
        let want = model.get(i);
        ensure!(got == want, "entry {}: got {:?}, expected {:?}", i, got.map(|f| show_fields(&[f])), want.map(|f| show_fields(&[f])));
    }
    Ok(())
}

/// Tables of up to some ten thousand entries.
fn big_table(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut t, mut model) = (HeaderIndex::new(), Table::new());
    let max = 1 << src.range(12, 20);
    t.set_max_table_size(max);
    model.resize(max);
    let n = src.scaled(14) as usize;
    let salt = src.upto(1 << 20);
    ctx.input("maximum", &max);
    ctx.input("additions", &(n, salt));
    let names: Vec<String> = ["a", "x-b", "cookie", "te"].iter().map(|s| s.to_string()).collect();
    let check = |t: &HeaderIndex, model: &Table, at: usize| -> R {
        same!("size", t.get_size(), model.size());
        same!("maximum", t.get_max_table_size(), model.max);
        same!("length", t.len(), model.entries.len());
        let l = model.entries.len();
        for i in [62, 63, 61 + l / 2, 61 + l, 62 + l, 60 + l, 62 + at % (l + 1)] {
            let got = t.get_from_index(i).map(|(n, v)| (n.as_bytes().to_vec(), v.as_bytes().to_vec()));
            let want = model.get(i);
            ensure!(got == want, "entry {} of {}: got {:?}, expected {:?}", i, l, got.map(|f| show_fields(&[f])), want.map(|f| show_fields(&[f])));
        }
        Ok(())
    };
    for i in 0..n {
        let z = crate::engine::mix(salt + i as u64);
        let name = &names[z as usize % names.len()];
        let value = if z >> 60 == 0 { format!("{:0w$}", i, w = (z >> 8) as usize % 100) } else { i.to_string() };
        t.add_header(HeaderName::from_bytes(name.as_bytes()).unwrap(), HeaderValue::from_bytes(value.as_bytes()));
        model.add((name.clone().into_bytes(), value.into_bytes()));
        check(&t, &model, z as usize >> 8).map_err(|e| format!("after {} additions: {}", i + 1, e))?;
    }
    let top = model.entries.len();
    ctx.nontrivial(top > 0);
    ctx.class_if(top > 1000, "more than 1000 entries");
    ctx.class_if(top > 4096, "more than 4096 entries");
    let mut cuts = Vec::new();
    for _ in 0..src.range(1, 5) {
        let s = src.upto(model.size() as u64 + 100) as usize;
        cuts.push(s);
        ctx.input("cut to", &s);
        t.set_max_table_size(s);
        model.resize(s);
        check(&t, &model, s).map_err(|e| format!("after resizing to {:?}: {}", cuts, e))?;
        let got = lib_table(&t);
        ensure!(got.len() == model.entries.len() && got.iter().eq(model.entries.iter()), "entries differ after resizing to {:?}", cuts);
        for i in 0..20u64 {
            let v = (salt % 1000 + i).to_string();
            t.add_header(HeaderName::from_bytes(b"again").unwrap(), HeaderValue::from_bytes(v.as_bytes()));
            model.add((b"again".to_vec(), v.into_bytes()));
            check(&t, &model, i as usize).map_err(|e| format!("after resizing to {:?} and adding: {}", cuts, e))?;
        }
    }
    Ok(())
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "histories of additions, size changes (0 to 131071), lookups and clones against a reference table, compared after every step and index by index (0 to beyond the end) at the end; the static table is compared entry by entry in every case; tables of up to some ten thousand entries, cut back. Non-trivial: entries or evictions.",
        assumptions: &["the static table of golang.org/x/net/http2/hpack is RFC 7541 Appendix A"],
        subs: vec![
            sub("history", Kind::Random(4_000), table_history),
            sub("big_table", Kind::Random(40), big_table),
        ],
    }
}
