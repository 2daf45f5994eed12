//! C38 C39 C40 C41: frame facts, promised requests, byte helpers, printing.
use super::gen::*;
use super::h2::*;
use super::hpack_ref::Table;
use crate::engine::{show, sub, Ctx, Kind as Run, Prop, Src, R};
use crate::{ensure, same};
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::collections::BinaryHeap;
use webparse::http2::encoder::Encoder;
use webparse::http2::frame::*;
use webparse::http2::Decoder;
use webparse::{HeaderMap, Helper, Method, Request, Response, Scheme, StatusCode, Url, Version};

// ------------------------------------------------------------------ C38
fn flag_of(bits: u8) -> Flag {
    let mut f = Flag::zero();
    if bits & END_STREAM != 0 {
        f.set_end_stream();
    }
    if bits & END_HEADERS != 0 {
        f.set_end_headers();
    }
    if bits & PADDED != 0 {
        f.set_padded();
    }
    if bits & PRIORITY != 0 {
        f |= Flag::priority();
    }
    f
}
fn bits_of(f: Flag) -> u8 {
    (f.is_end_stream() as u8) * END_STREAM
        | (f.is_end_headers() as u8) * END_HEADERS
        | (f.is_padded() as u8) * PADDED
        | (f.is_priority() as u8) * PRIORITY
}

fn frame_facts(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut table = Table::new();
    let mut dec = Decoder::new();
    let mut enc = Encoder::new();
    let n = src.range(1, 4);
    for _ in 0..n {
        let kind = src.upto(8) as u8;
        let mut r = good_frame(src, &mut table, kind);
        if kind == 1 && src.chance(1, 3) {
            r.flags &= !END_HEADERS; // a block cut exactly between fields
        }
        ctx.input("frame", &r);
        ctx.nontrivial(true);
        let b = r.bytes();
        let mut v = Binary::from(b);
        let h = FrameHeader::parse(&mut v).map_err(|e| format!("{:?}", e))?;
        same!("header flags", bits_of(h.flag()), r.flags);
        let mut f = Frame::parse(h, v, &mut dec, 1 << 24).map_err(|e| format!("{:?} refused: {:?}", r, e))?;
        let names = ["Data", "Headers", "Priority", "Reset", "Settings", "PushPromise", "Ping", "GoAway", "WindowUpdate"];
        ctx.class(names[kind as usize]);
        same!("display_name", f.display_name(), format!("{}({})", names[kind as usize], if matches!(kind, 4 | 6 | 7) { 0 } else { r.id }));
        if kind != 2 {
            same!("stream_id", f.stream_id().0, if matches!(kind, 4 | 6 | 7) { 0 } else { r.id });
        }
        same!("is_header", f.is_header(), kind == 1);
        same!("is_data", f.is_data(), kind == 0);
        same!("is_end_stream", f.is_end_stream(), kind <= 1 && r.flags & END_STREAM != 0);
        same!("is_end_headers", f.is_end_headers(), kind == 1 && r.flags & END_HEADERS != 0);
        if matches!(kind, 0 | 1 | 4 | 5) {
            same!("flags", bits_of(f.flags()), r.flags);
        }
        // the variant says the same, and its flags change one by one
        match &mut f {
            Frame::Data(d) => {
                same!("Data::stream_id", d.stream_id().0, r.id);
                same!("Data::flags", bits_of(d.flags()), r.flags);
                same!("Data::is_padded", d.is_padded(), r.flags & PADDED != 0);
                let mut bits = r.flags;
                for _ in 0..src.upto(4) {
                    if src.bool() {
                        let on = src.bool();
                        d.set_end_stream(on);
                        bits = bits & !END_STREAM | if on { END_STREAM } else { 0 };
                    } else {
                        d.set_padded();
                        bits |= PADDED;
                    }
                    same!("Data::flags after a change", bits_of(d.flags()), bits);
                    same!("Data::is_end_stream", d.is_end_stream(), bits & END_STREAM != 0);
                }
                let p = d.payload().chunk().to_vec();
                same!("payload_mut", d.payload_mut().chunk().to_vec(), p);
                let mut h = FrameHeader::new(Kind::Data, flag_of(bits), StreamIdentifier(r.id));
                h.length = p.len() as u32;
                let m = Data::new(h, Binary::from(p.clone())).map(|b| b.chunk().to_vec());
                same!("mapped DATA", (m.stream_id().0, bits_of(m.flags()), m.into_payload()), (r.id, bits, p));
            }
            Frame::Headers(x) => {
                same!("Headers::stream_id", x.stream_id().0, r.id);
                let mut bits = r.flags;
                for _ in 0..src.upto(4) {
                    match src.upto(3) {
                        0 => {
                            x.set_end_stream();
                            bits |= END_STREAM;
                        }
                        1 => {
                            x.set_end_headers();
                            bits |= END_HEADERS;
                        }
                        2 => {
                            x.flags_mut().unset_end_stream();
                            bits &= !END_STREAM;
                        }
                        _ => {
                            x.flags_mut().unset_end_headers();
                            bits &= !END_HEADERS;
                        }
                    }
                    same!("Headers::flags after a change", bits_of(x.flags()), bits);
                    same!("Headers::is_end_stream", x.is_end_stream(), bits & END_STREAM != 0);
                    same!("Headers::is_end_headers", x.is_end_headers(), bits & END_HEADERS != 0);
                }
                let want = x.status().map(|s| s.is_informational()).unwrap_or(false);
                same!("is_informational", x.is_informational(), want);
                let list = map_list(x.fields());
                same!("fields_mut", map_list(x.fields_mut()), list);
                let (method, path, status) = (x.method().clone(), x.path().clone(), *x.status());
                let authority = x.authority().clone();
                let again = Headers::new(FrameHeader::new(Kind::Headers, x.flags(), x.stream_id()), HeaderMap::new());
                let moved = std::mem::replace(x, again);
                let (p, l) = moved.into_parts();
                same!("into_parts", (&p.method, &p.path, &p.status, &p.authority), (&method, &path, &status, &authority));
                same!("fields of into_parts", map_list(&l), list);
                *x.parts_mut() = p;
                *x.fields_mut() = l;
                let (p, l) = std::mem::replace(x, Headers::new(FrameHeader::new(Kind::Headers, x.flags(), x.stream_id()), HeaderMap::new())).into_parts();
                let mut t = Headers::trailers(StreamIdentifier(r.id), p, l);
                same!("trailers", (t.stream_id().0, t.method().clone(), t.path().clone(), *t.status(), t.authority().clone()), (r.id, method, path, status, authority));
                same!("fields of trailers", map_list(t.fields()), list);
                if x.is_end_stream() {
                    t.set_end_stream();
                }
                if src.bool() {
                    same!("into_fields", map_list(&t.into_fields()), list);
                } else {
                    *x = t;
                }
            }
            Frame::PushPromise(x) => {
                same!("PushPromise::stream_id", x.stream_id().0, r.id);
                let mut bits = r.flags;
                for _ in 0..src.upto(3) {
                    match src.upto(2) {
                        0 => {
                            x.set_end_stream();
                            bits |= END_STREAM;
                        }
                        1 => {
                            x.set_end_headers();
                            bits |= END_HEADERS;
                        }
                        _ => {
                            x.flags_mut().unset_end_headers();
                            bits &= !END_HEADERS;
                        }
                    }
                    same!("PushPromise::flags after a change", bits_of(x.flags()), bits);
                    same!("PushPromise::is_end_stream", x.is_end_stream(), bits & END_STREAM != 0);
                    same!("PushPromise::is_end_headers", x.is_end_headers(), bits & END_HEADERS != 0);
                }
                parts_push(src, x.promised_id().0, r.id)?;
            }
            Frame::Settings(x) => same!("Settings::is_ack", x.is_ack(), r.flags & ACK != 0),
            Frame::Ping(x) => same!("Ping::is_ack", x.is_ack(), r.flags & ACK != 0),
            Frame::Priority(x) => same!("Priority::stream_id", x.stream_id().0, r.id),
            Frame::WindowUpdate(x) => same!("WindowUpdate::stream_id", x.stream_id().0, r.id),
            Frame::Reset(x) => same!("Reset::stream_id", x.stream_id().0, r.id),
            Frame::GoAway(_) => {}
        }
        // and what is sent on belongs to the same stream
        let push = matches!(f, Frame::PushPromise(_));
        let mut out = BinaryMut::new();
        f.encode(&mut out, &mut enc).map_err(|e| format!("{:?}", e))?;
        let sent = split_frames(out.chunk())?;
        let want = if matches!(kind, 4 | 6 | 7) { 0 } else { r.id };
        ensure!(!sent.is_empty() && sent[0].kind == kind && sent[0].id == want, "{:?} is sent on as {:?}", r, sent);
        ensure!(push || sent.iter().all(|s| s.id == want), "{:?} is sent on as {:?}", r, sent);
    }
    Ok(())
}

/// A PUSH_PROMISE frame gives back what its setters were given.
fn parts_push(src: &mut Src, promised: u32, id: u32) -> R {
    let l = headers(src, 3, &[]);
    let map = mk_map(src, &l);
    let h = FrameHeader::new(Kind::PushPromise, Flag::zero(), StreamIdentifier(id));
    let mut p = PushPromise::new(h, StreamIdentifier(promised), map);
    let (method, path) = (Method::try_from(*src.pick(&["GET", "HEAD", "POST"])).unwrap(), text(src, 8));
    let (authority, status) = (host(src), StatusCode::from_u16(src.range(100, 999) as u16).unwrap());
    let mask = src.upto(15);
    if mask & 1 != 0 {
        p.set_method(method.clone());
    }
    if mask & 2 != 0 {
        p.set_path(path.clone());
    }
    if mask & 4 != 0 {
        p.set_authority(authority.clone());
    }
    if mask & 8 != 0 {
        p.set_status(status);
    }
    let want = (
        Some(method).filter(|_| mask & 1 != 0),
        Some(path).filter(|_| mask & 2 != 0),
        Some(authority).filter(|_| mask & 4 != 0),
        Some(status).filter(|_| mask & 8 != 0),
    );
    same!("PushPromise parts", (p.method().clone(), p.path().clone(), p.authority().clone(), *p.status()), want);
    same!("promised_id", (p.promised_id().0, p.stream_id().0), (promised, id));
    same!("PushPromise::fields", map_list(p.fields()), l);
    if src.bool() {
        same!("PushPromise::into_fields", map_list(&p.into_fields()), l);
    } else {
        let (q, f) = p.into_parts();
        same!("PushPromise::into_parts", (q.method, q.path, q.authority, q.status), want);
        same!("fields of PushPromise::into_parts", map_list(&f), l);
    }
    Ok(())
}

fn short_ids(src: &mut Src) -> R {
    let b = src.bytes(7);
    let want = if b.len() < 4 { 0 } else { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) & 0x7fff_ffff };
    same!("stream identifier of some bytes", StreamIdentifier::parse(&mut &b[..]).0, want);
    Ok(())
}
/// The big-endian numbers that frames are made of: read with exactly their octets, or 0 when some are missing.
fn numbers(src: &mut Src, ctx: &mut Ctx) -> R {
    let b = src.bytes(12);
    ctx.bytes("bytes", &b);
    ctx.nontrivial(b.len() >= 3);
    let be = |n: usize| if b.len() < n { (0, b.len()) } else { (b[..n].iter().fold(0u64, |a, x| a << 8 | *x as u64), b.len() - n) };
    let take = |f: fn(&mut &[u8]) -> u64| {
        let mut v = &b[..];
        (f(&mut v), v.len())
    };
    let (n31, left) = be(4);
    same!("read_u24", take(|v| read_u24(v) as u64), be(3));
    same!("read_u31", take(|v| read_u31(v) as u64), (n31 & 0x7fff_ffff, left));
    same!("read_u64", take(|v| read_u64(v)), be(8));
    let x = src.scaled(24) as u32;
    let mut out = BinaryMut::new();
    same!("encode_u24", encode_u24(&mut out, x), 3);
    same!("octets of encode_u24", out.chunk().to_vec(), x.to_be_bytes()[1..].to_vec());
    same!("read_u24 of encode_u24", read_u24(&mut out), x);
    Ok(())
}
fn flag_ops(src: &mut Src, ctx: &mut Ctx) -> R {
    // every flag byte
    let b = src.index as u8;
    ctx.input("byte", &b);
    ctx.nontrivial(b != 0);
    let known = b & !(END_STREAM | END_HEADERS | PADDED | PRIORITY) == 0;
    ctx.class(if known { "known flags" } else { "unknown flags" });
    if !known {
        return Ok(());
    }
    let f = Flag::new(b).map_err(|_| format!("flags {:#x} refused", b))?;
    same!("bits", f.bits(), b);
    same!("queries", bits_of(f), b);
    same!("setters", flag_of(b), f);
    let ops: [(&str, fn(&mut Flag), u8, bool); 6] = [
        ("set_end_stream", Flag::set_end_stream, END_STREAM, true),
        ("unset_end_stream", Flag::unset_end_stream, END_STREAM, false),
        ("set_end_headers", Flag::set_end_headers, END_HEADERS, true),
        ("unset_end_headers", Flag::unset_end_headers, END_HEADERS, false),
        ("set_padded", Flag::set_padded, PADDED, true),
        ("unset_padded", Flag::unset_padded, PADDED, false),
    ];
    for (name, op, bit, on) in ops {
        let mut g = f;
        op(&mut g);
        let want = if on { b | bit } else { b & !bit };
        ensure!(g.bits() == want, "{} on {:#x} gives {:#x}, expected {:#x}", name, b, g.bits(), want);
    }
    same!("is_ack", f.is_ack(), b & ACK != 0);
    same!("load", Flag::load(f).bits(), b | ACK);
    Ok(())
}

fn stream_ids(src: &mut Src, ctx: &mut Ctx) -> R {
    let (a, b) = (src.scaled(32) as u32, src.scaled(32) as u32);
    ctx.input("ids", &(a, b));
    ctx.nontrivial(a != b);
    let (x, y) = (StreamIdentifier(a), StreamIdentifier::from(b));
    same!("ordering", x.cmp(&y), a.cmp(&b));
    same!("partial ordering", x.partial_cmp(&y), Some(a.cmp(&b)));
    same!("equality", x == y, a == b);
    same!("text", x.to_string(), a.to_string());
    same!("is_zero", x.is_zero(), a == 0);
    same!("zero", StreamIdentifier::zero().0, 0);
    short_ids(src)?;
    // a header made without a payload announces none
    let mut h = FrameHeader::new(Kind::Ping, Flag::zero(), StreamIdentifier(a & 0x7fff_ffff));
    let (mut buf, prefix) = out_buf(src);
    let n = h.encode(&mut buf).map_err(|e| format!("{:?}", e))?;
    let mut want = vec![0, 0, 0, 6, 0];
    want.extend_from_slice(&(a & 0x7fff_ffff).to_be_bytes());
    same!("new frame header", appended("frame header", &buf, &prefix, n)?, want);
    let (mut buf, prefix) = out_buf(src);
    let n = x.encode(&mut buf).map_err(|e| format!("{:?}", e))?;
    same!("encoded", appended("stream id", &buf, &prefix, n)?, a.to_be_bytes().to_vec());
    let mut rest = a.to_be_bytes().to_vec();
    let tail = src.bytes(5);
    rest.extend_from_slice(&tail);
    let mut v = Binary::from(rest);
    same!("parsed without the reserved bit", StreamIdentifier::parse(&mut v).0, a & U31);
    same!("bytes left", v.chunk().to_vec(), tail);
    // ids are handed out in steps of two
    let (mut next, mut want) = match src.upto(2) {
        0 => (StreamIdentifier::client_first(), 1u32),
        1 => (StreamIdentifier::server_first(), 2),
        _ => {
            let a = a.min(U31 - 100);
            (StreamIdentifier(a), a)
        }
    };
    for _ in 0..src.upto(20) {
        same!("next_id", next.next_id().0, want);
        want += 2;
        same!("what follows", next.0, want);
    }
    Ok(())
}

fn queue_order(src: &mut Src, ctx: &mut Ctx) -> R {
    let l: Vec<(u8, u32)> = src.list(30, 10, |src| (if src.bool() { src.byte() } else { src.upto(3) as u8 }, sid(src)));
    ctx.input("queue", &l);
    ctx.nontrivial(l.len() > 2);
    let mut heap: BinaryHeap<PriorityFrame<Binary>> = BinaryHeap::new();
    for (w, id) in &l {
        let f = Frame::Reset(Reset::new(StreamIdentifier(*id), Reason::from(0u32)));
        let mut p = PriorityFrame::new(f, if src.bool() { *w } else { src.byte() });
        p.set_weight(*w);
        same!("weight", p.weight(), *w);
        heap.push(p);
    }
    let mut got: Vec<(u8, u32)> = Vec::new();
    while let Some(p) = heap.pop() {
        got.push((p.weight(), p.frame.stream_id().0));
    }
    let weights: Vec<u8> = got.iter().map(|g| g.0).collect();
    ensure!(weights.windows(2).all(|w| w[0] >= w[1]), "weights leave the queue as {:?}", weights);
    let (mut a, mut b) = (l.clone(), got);
    a.sort();
    b.sort();
    same!("queued frames", b, a);
    if l.len() >= 2 {
        let mk = |x: &(u8, u32)| PriorityFrame::<Binary>::new(Frame::Reset(Reset::new(StreamIdentifier(x.1), Reason::from(0u32))), x.0);
        let (x, y) = (mk(&l[0]), mk(&l[1]));
        same!("comparison", x.cmp(&y), l[0].0.cmp(&l[1].0));
        same!("partial comparison", x.partial_cmp(&y), Some(l[0].0.cmp(&l[1].0)));
        same!("equality", x == y, l[0].0 == l[1].0);
    }
    Ok(())
}

pub fn c38() -> Prop {
    Prop {
        id: "C38",
        rule: "sequences of 1-4 well-formed frames of every type (with padding, priority, END_STREAM, END_HEADERS and ACK in every combination) parsed and asked for stream, flags, kind and name through the frame and its variant, with random flag changes, then sent on; all 256 flag bytes with every single-flag change; pairs of stream identifiers over the 32-bit range and runs of next_id; 0-12 bytes read as 24-, 31- and 64-bit numbers; queues of 0-30 weighted frames. Non-trivial: all frames, non-zero flags, different identifiers, queues of more than 2.",
        assumptions: &["the stream of a PRIORITY frame is asked of the PRIORITY variant (Frame::stream_id answers 0 for it)", "flags of PING are asked of the PING variant"],
        subs: vec![
            sub("frame_facts", Run::Random(25_000), frame_facts),
            sub("flag_bytes", Run::Every(256), flag_ops),
            sub("numbers", Run::Random(4_000), numbers),
            sub("stream_ids", Run::Random(30_000), stream_ids),
            sub("queue", Run::Random(8_000), queue_order),
        ],
    }
}

// ------------------------------------------------------------------ C39
/// A method text close to, or far from, the two that may be promised.
fn near_method(src: &mut Src) -> String {
    let m = *src.pick(&["GET", "HEAD", "GET", "HEAD", "POST", "PROPFIND"]);
    match src.upto(5) {
        0 => recase(src, m),
        1 => format!("{}{}", src.pick(&["X", "BE", "GET", "HEAD", " ", "-"]), m),
        2 => format!("{}{}", m, src.pick(&["X", "ER", "GET", "HEAD", " ", "-"])),
        3 => m[..src.below(m.len() + 1)].to_string(),
        4 => m[src.below(m.len() + 1)..].to_string(),
        _ => String::from_utf8(tweak(src, m.as_bytes(), |b| b.is_ascii_graphic())).unwrap_or_default(),
    }
}
fn promise(src: &mut Src, ctx: &mut Ctx) -> R {
    let method = match src.upto(3) {
        0 => "GET".to_string(),
        1 => "HEAD".to_string(),
        2 => near_method(src),
        _ => src.pick(methods()).to_string(),
    };
    let len: Option<u64> = match src.upto(3) {
        0 | 1 => None,
        2 => Some(0),
        _ => Some(src.scaled(62)),
    };
    // a length below zero is neither absent nor zero
    let below = src.chance(1, 12);
    let mut hs = headers(src, 5, &["content-length"]);
    // headers about a body, a condition or the connection decide nothing
    for _ in 0..src.upto(3) {
        let (n, v) = *src.pick(&[
            ("transfer-encoding", "chunked"),
            ("expect", "100-continue"),
            ("connection", "Upgrade"),
            ("upgrade", "h2c"),
            ("content-type", "text/plain"),
            ("content-encoding", "gzip"),
            ("range", "bytes=0-1"),
            ("if-match", "*"),
            ("cache-control", "no-store"),
            ("authorization", "Basic YQ=="),
            ("cookie", "a=b"),
            ("trailer", "x"),
            ("te", "trailers"),
        ]);
        if !contains_name(&hs, n) {
            let n = recase(src, n);
            hs.push((n, v.as_bytes().to_vec()));
        }
    }
    ctx.input("request", &(&method, len, below, show_headers(&hs)));
    let path = if src.bool() { "/".to_string() } else { format!("/{}", text(src, 8)) };
    let m = if methods().contains(&&*method) { Method::try_from(&*method).map_err(|e| format!("{:?}", e))? } else { Method::Extension(method.clone()) };
    let mut b = Request::builder().method(m).version(Version::Http2);
    let mut list: Vec<(String, Vec<u8>)> = hs.clone();
    if let Some(n) = len {
        let k = src.below(list.len() + 1);
        let name = recase(src, "content-length");
        let zeros = if src.chance(1, 4) { "0".repeat(src.range(1, 20) as usize) } else { String::new() };
        list.insert(k, (name, format!("{}{}{}", if below && n > 0 { "-" } else { "" }, zeros, n).into_bytes()));
    }
    b = b.headers(mk_map(src, &list));
    let mut r = b.body(()).map_err(|e| format!("{:?}", e))?;
    r.set_path(path);
    let want = matches!(&*method, "GET" | "HEAD") && len.unwrap_or(0) == 0;
    ctx.class(if want { "may be promised" } else { "must not be promised" });
    ctx.nontrivial(true);
    let got = PushPromise::validate_request(&r);
    ensure!(got.is_ok() == want, "promising a {} request with content length {:?}: {:?}", method, len, got);
    Ok(())
}

pub fn c39() -> Prop {
    Prop {
        id: "C39",
        rule: "requests with every method and extension methods close to GET and HEAD, content lengths absent, zero or positive (leading zeros, any letter case of the name, any place among other headers). Non-trivial: all.",
        assumptions: &["a request's body is announced by Content-Length"],
        subs: vec![sub("promise", Run::Random(20_000), promise)],
    }
}

// ------------------------------------------------------------------ C40
fn byte_classes(src: &mut Src, ctx: &mut Ctx) -> R {
    let b = src.index as u8;
    ctx.input("byte", &b);
    ctx.nontrivial(b.is_ascii_graphic());
    same!("is_alpha", Helper::is_alpha(b), b.is_ascii_alphabetic());
    same!("is_digit", Helper::is_digit(b), b.is_ascii_digit());
    same!("is_hex", Helper::is_hex(b), b.is_ascii_hexdigit());
    same!("convert_hex", Helper::convert_hex(b).map(|v| v as u32), (b as char).to_digit(16));
    // every character of RFC 3986, and nothing that cannot stand in a line of text
    if b.is_ascii_alphanumeric() || b"-._~:/?#[]@!$&'()*+,;=%".contains(&b) {
        ensure!(Helper::is_uri_token(b), "{:?} is no URI character", b as char);
    }
    if !b.is_ascii_graphic() || matches!(b, b'<' | b'>') {
        ensure!(!Helper::is_uri_token(b), "{:?} is a URI character", b as char);
    }
    if b < 16 {
        same!("to_hex", Helper::to_hex(b), b"0123456789ABCDEF"[b as usize]);
    }
    // what a class means is what the parser takes
    let mut head = b"GET /a".to_vec();
    head.push(b);
    head.extend_from_slice(b"b HTTP/1.1\r\n\r\n");
    let r = Request::new().parse(&head);
    if !Helper::is_token(b) && !matches!(b, b' ') {
        ensure!(r.is_err(), "{} accepted", show(&head));
    }
    let mut head = b"HTTP/1.1 200 a".to_vec();
    head.push(b);
    head.extend_from_slice(b"b\r\n\r\n");
    let r = Response::new(()).parse(&head);
    if b != b'\n' && b != b'\r' {
        ensure!(r.is_ok() == Helper::is_status_token(b), "{}: {:?}", show(&head), r);
    }
    Ok(())
}

fn hex_text(src: &mut Src, ctx: &mut Ctx) -> R {
    let bytes = src.payload(300);
    let upper = src.upto(2);
    let spaced = src.upto(3);
    let mut t = String::new();
    for b in &bytes {
        for d in [b >> 4, b & 15] {
            if spaced == 3 && src.chance(1, 6) {
                t.push(' ');
            }
            let c = char::from_digit(d as u32, 16).unwrap();
            let up = match upper {
                0 => false,
                1 => true,
                _ => src.bool(),
            };
            t.push(if up { c.to_ascii_uppercase() } else { c });
        }
        if spaced == 1 {
            t.push(' ');
        }
    }
    ctx.input("text", &t);
    ctx.nontrivial(bytes.len() > 1);
    same!("hex_to_vec", Helper::hex_to_vec(&t), bytes);
    Ok(())
}

fn searches(src: &mut Src, ctx: &mut Ctx) -> R {
    let style = src.upto(2);
    let len = *src.pick(&[6usize, 40, 300]);
    let alpha: &[u8] = match style {
        0 => b"ab",
        1 => b"aAbB[{@`",
        _ => b"",
    };
    let n = src.size(len);
    let a: Vec<u8> = (0..n).map(|_| if alpha.is_empty() { src.byte() } else { *src.pick(alpha) }).collect();
    let b: Vec<u8> = match src.upto(4) {
        0 => {
            // a piece of it, perhaps spoilt
            let i = src.below(a.len() + 1);
            let j = i + src.below(a.len() - i + 1);
            let mut b = a[i..j].to_vec();
            if src.chance(1, 3) {
                mutate(src, &mut b);
            }
            b
        }
        1 => tweak(src, &a, |_| true),
        2 => a.iter().map(|c| if src.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        3 => a.iter().enumerate().map(|(i, c)| if i + 1 == a.len() { c ^ 0x20 } else { *c }).collect(),
        _ => {
            let n = src.size(4);
            (0..n).map(|_| if alpha.is_empty() { src.byte() } else { *src.pick(alpha) }).collect()
        }
    };
    ctx.bytes("a", &a);
    ctx.bytes("b", &b);
    ctx.nontrivial(!a.is_empty() && !b.is_empty());
    let found = b.is_empty() || a.windows(b.len()).any(|w| w == &b[..]);
    ctx.class(if found { "contained" } else { "not contained" });
    same!("contains_bytes", Helper::contains_bytes(&a, &b), found);
    same!("contains_bytes (itself)", Helper::contains_bytes(&a, &a), true);
    same!("eq_bytes", Helper::eq_bytes(&a, &b), a == b);
    let lower = |v: &[u8]| v.iter().map(|c| if c.is_ascii_uppercase() { c + 32 } else { *c }).collect::<Vec<u8>>();
    ctx.class_if(a != b && lower(&a) == lower(&b), "equal but for case");
    same!("eq_bytes_ignore_ascii_case", Helper::eq_bytes_ignore_ascii_case(&a, &b), lower(&a) == lower(&b));
    let v = webparse::HeaderValue::from_bytes(&a);
    same!("HeaderValue::contains", v.contains(&b), found);
    let mut m = HeaderMap::new();
    m.insert("x", v);
    same!("is_contains", m.is_contains(&"X", &b), found);
    same!("is_equal", m.is_equal(&"X", &b), a == b);
    Ok(())
}

fn line_breaks(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut b: Vec<u8> = (0..src.upto(4)).map(|_| *src.pick(b"\r\n\r\n a\t\0")).collect();
    b.extend_from_slice(&src.bytes(4));
    ctx.bytes("bytes", &b);
    let want = match &b[..] {
        [] | [b'\r'] => Err(true),
        [b'\r', b'\n', ..] => Ok(2),
        [b'\n', ..] => Ok(1),
        _ => Err(false),
    };
    ctx.class(match want {
        Ok(_) => "line break",
        Err(true) => "incomplete",
        Err(false) => "no line break",
    });
    ctx.nontrivial(!b.is_empty());
    let mut v = Binary::from(b.clone());
    let got = Helper::skip_new_line(&mut v).map(|_| b.len() - v.remaining()).map_err(|e| e.is_partial());
    same!("skip_new_line", got, want);
    Ok(())
}

pub fn c40() -> Prop {
    Prop {
        id: "C40",
        rule: "all 256 bytes against the definitions of letter, digit, hexadecimal digit, status text and (its bounds from RFC 3986) URI character, and against what the parsers accept; hexadecimal texts of 0-300 bytes in either case with spaces anywhere; pairs of byte strings (pieces, recased and spoilt copies, small alphabets) compared and searched against a reference; beginnings with and without line breaks. Non-trivial: visible bytes, more than one byte, both strings non-empty.",
        assumptions: &["hex_to_vec is given hexadecimal digits and spaces, to_hex a number below 16"],
        subs: vec![
            sub("byte_classes", Run::Every(256), byte_classes),
            sub("hex_text", Run::Random(20_000), hex_text),
            sub("searches", Run::Random(60_000), searches),
            sub("line_breaks", Run::Random(20_000), line_breaks),
        ],
    }
}

// ------------------------------------------------------------------ C41
fn text_headers(src: &mut Src) -> Vec<(String, Vec<u8>)> {
    headers(src, 8, &[])
        .into_iter()
        .map(|(n, v)| (n, String::from_utf8_lossy(&v).into_owned().into_bytes()))
        .collect()
}

fn print_request(src: &mut Src, ctx: &mut Ctx) -> R {
    let method = *src.pick(methods());
    let version = *src.pick(&[Version::Http10, Version::Http11, Version::Http2, Version::Http3]);
    let mut url = Url::new();
    if method == "CONNECT" || src.bool() {
        url.domain = Some(host(src));
        url.port = Some(port(src));
        if src.bool() {
            url.scheme = Scheme::Https;
        }
    }
    url.path = if src.chance(1, 8) { String::new() } else { format!("/{}", text(src, 30)) };
    if src.bool() {
        url.query = Some(text(src, 20));
    }
    let hs = text_headers(src);
    let body = text(src, 60);
    ctx.input("request", &(method, &version, &url, show_headers(&hs), &body));
    ctx.nontrivial(!hs.is_empty());
    let mut r = Request::new().into(body.clone()).0;
    r.set_method(Method::try_from(method).map_err(|e| format!("{:?}", e))?);
    r.set_version(version);
    *r.url_mut() = url;
    *r.headers_mut() = mk_map(src, &hs);
    let printed = r.to_string();
    let sent = r.http1_data().map_err(|e| format!("serialise: {:?}", e))?;
    ensure!(printed.as_bytes() == sent, "printed {} but sends {}", show(printed.as_bytes()), show(&sent));
    same!("printing again", r.to_string(), printed);
    Ok(())
}

fn print_response(src: &mut Src, ctx: &mut Ctx) -> R {
    let version = *src.pick(&[Version::Http10, Version::Http11, Version::Http2, Version::Http3]);
    let code = loop_code(src);
    let hs = text_headers(src);
    let body = text(src, 60);
    ctx.input("response", &(code, &version, show_headers(&hs), &body));
    let status = StatusCode::from_u16(code).map_err(|e| format!("{:?}", e))?;
    let mut r = Response::builder().status(status).version(version).body(body.clone()).map_err(|e| format!("{:?}", e))?;
    *r.headers_mut() = mk_map(src, &hs);
    let printed = r.to_string();
    ctx.nontrivial(status.canonical_reason().is_some());
    if status.canonical_reason().is_none() {
        ctx.class("unregistered status");
        ensure!(printed.contains(&code.to_string()), "{} does not name status {}", show(printed.as_bytes()), code);
        return Ok(());
    }
    let sent = r.httpdata().map_err(|e| format!("serialise: {:?}", e))?;
    ensure!(printed.as_bytes() == sent, "printed {} but sends {}", show(printed.as_bytes()), show(&sent));
    same!("printing again", r.to_string(), printed);
    Ok(())
}
fn loop_code(src: &mut Src) -> u16 {
    match src.upto(2) {
        0 => *src.pick(&[200u16, 100, 101, 204, 206, 301, 304, 400, 404, 418, 500, 511]),
        1 => src.range(100, 599) as u16,
        _ => src.range(100, 999) as u16,
    }
}

pub fn c41() -> Prop {
    Prop {
        id: "C41",
        rule: "requests over all methods, versions, origin and absolute URLs, CONNECT targets, 0-8 headers of UTF-8 values and text bodies; responses over all status codes; the printed text compared with the bytes sent. Non-trivial: a request with a header, a response with a registered status.",
        assumptions: &["header values and the body are UTF-8"],
        subs: vec![
            sub("request", Run::Random(20_000), print_request),
            sub("response", Run::Random(20_000), print_response),
        ],
    }
}
