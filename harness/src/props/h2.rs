//! C05 C18 C19 C20 C21 C22 C31 C32: HTTP/2 frames.
use super::gen::*;
use super::hpack_ref as href;
use super::hpack_ref::{Field, Table};
use super::http1::{bounded, linear};
use crate::engine::{sub, Ctx, Kind as Run, Prop, Src, R, show};
use crate::{ensure, same};
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::sync::{Arc, RwLock};
use webparse::http2::encoder::Encoder;
use webparse::http2::frame::*;
use webparse::http2::{Decoder, HeaderIndex, HuffmanDecoder};
use webparse::{HeaderMap, Method, Request, Response, Scheme, Serialize, StatusCode};

pub const END_STREAM: u8 = 1;
pub const ACK: u8 = 1;
pub const END_HEADERS: u8 = 4;
pub const PADDED: u8 = 8;
pub const PRIORITY: u8 = 0x20;
pub const U31: u32 = (1 << 31) - 1;

// ------------------------------------------------------------------ wire model
#[derive(Debug, Clone, PartialEq)]
pub struct Raw {
    pub kind: u8,
    pub flags: u8,
    pub id: u32,
    pub payload: Vec<u8>,
}
impl Raw {
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.payload.len();
        let mut v = vec![(n >> 16) as u8, (n >> 8) as u8, n as u8, self.kind, self.flags];
        v.extend_from_slice(&self.id.to_be_bytes());
        v.extend_from_slice(&self.payload);
        v
    }
}
pub fn raw(kind: u8, flags: u8, id: u32, payload: Vec<u8>) -> Raw {
    Raw { kind, flags, id, payload }
}
pub fn split_frames(mut b: &[u8]) -> Result<Vec<Raw>, String> {
    let mut out = Vec::new();
    while !b.is_empty() {
        ensure!(b.len() >= 9, "{} stray bytes after {} frames", b.len(), out.len());
        let n = (b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize;
        ensure!(b.len() >= 9 + n, "frame {} announces {} bytes of payload, {} follow", out.len(), n, b.len() - 9);
        out.push(raw(b[3], b[4], u32::from_be_bytes([b[5], b[6], b[7], b[8]]), b[9..9 + n].to_vec()));
        b = &b[9 + n..];
    }
    Ok(out)
}

/// What a frame says, independent of the buffer type.
#[derive(Debug, Clone, PartialEq)]
pub enum Got {
    Data { id: u32, end: bool, data: Vec<u8> },
    Headers { id: u32, end_stream: bool, end_headers: bool, pseudo: Vec<(String, String)>, fields: Vec<Field> },
    Priority { id: u32, dep: u32, weight: u8 },
    Push { id: u32, promised: u32, pseudo: Vec<(String, String)>, fields: Vec<Field> },
    Settings(Settings),
    Ping { ack: bool, data: Vec<u8> },
    GoAway { last: u32, code: u32, debug: Vec<u8> },
    Window { id: u32, inc: u32 },
    Reset { id: u32, code: u32 },
}

fn map_fields(m: &HeaderMap) -> Vec<Field> {
    map_list(m).into_iter().map(|(n, v)| (n.to_ascii_lowercase().into_bytes(), v)).collect()
}
fn pseudo_list(
    method: &Option<Method>,
    scheme: &Option<Scheme>,
    authority: &Option<String>,
    path: &Option<String>,
    status: &Option<StatusCode>,
) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if let Some(m) = method {
        v.push((":method".to_string(), m.as_str().to_string()));
    }
    if let Some(m) = scheme {
        v.push((":scheme".to_string(), m.as_str().to_string()));
    }
    if let Some(m) = authority {
        v.push((":authority".to_string(), m.clone()));
    }
    if let Some(m) = path {
        v.push((":path".to_string(), m.clone()));
    }
    if let Some(m) = status {
        v.push((":status".to_string(), m.as_str().to_string()));
    }
    v.sort();
    v
}

/// Pseudo-headers without an accessor of their own stay among the fields.
fn extended(mut pseudo: Vec<(String, String)>, fields: Vec<Field>) -> (Vec<(String, String)>, Vec<Field>) {
    let (p, fields): (Vec<Field>, Vec<Field>) = fields.into_iter().partition(|f| f.0.starts_with(b":"));
    pseudo.extend(p.into_iter().map(|(n, v)| {
        (String::from_utf8_lossy(&n).to_ascii_lowercase(), String::from_utf8_lossy(&v).into_owned())
    }));
    pseudo.sort();
    (pseudo, fields)
}
pub fn describe<T: Bt>(f: Frame<T>) -> Got {
    match f {
        Frame::Data(d) => {
            Got::Data { id: d.stream_id().0, end: d.is_end_stream(), data: d.payload().chunk().to_vec() }
        }
        Frame::Headers(mut h) => {
            let (id, end_stream, end_headers) = (h.stream_id().0, h.is_end_stream(), h.is_end_headers());
            let (m, s, a, p, st) =
                (h.method().clone(), h.scheme().clone(), h.authority().clone(), h.path().clone(), h.status().clone());
            let listed = map_fields(h.fields());
            let (parts, fields) = h.into_parts();
            let pseudo = pseudo_list(&parts.method, &parts.scheme, &parts.authority, &parts.path, &parts.status);
            assert_eq!(pseudo, pseudo_list(&m, &s, &a, &p, &st), "accessors and into_parts disagree");
            assert_eq!(listed, map_fields(&fields), "fields and into_parts disagree");
            let (pseudo, fields) = extended(pseudo, listed);
            Got::Headers { id, end_stream, end_headers, pseudo, fields }
        }
        Frame::Priority(p) => {
            let g = Got::Priority { id: p.stream_id().0, dep: p.dependency_id().0, weight: p.weight() };
            let (a, b, c) = p.into();
            assert_eq!(g, Got::Priority { id: a.0, dep: b.0, weight: c }, "accessors and into disagree");
            g
        }
        Frame::PushPromise(p) => {
            let (id, promised) = (p.stream_id().0, p.promised_id().0);
            let (parts, fields) = p.into_parts();
            let pseudo = pseudo_list(&parts.method, &parts.scheme, &parts.authority, &parts.path, &parts.status);
            let (pseudo, fields) = extended(pseudo, map_fields(&fields));
            Got::Push { id, promised, pseudo, fields }
        }
        Frame::Settings(s) => Got::Settings(s),
        Frame::Ping(p) => Got::Ping { ack: p.is_ack(), data: p.payload().to_vec() },
        Frame::GoAway(g) => Got::GoAway {
            last: g.last_stream_id().0,
            code: g.reason().into(),
            debug: g.debug_data().chunk().to_vec(),
        },
        Frame::WindowUpdate(w) => Got::Window { id: w.stream_id().0, inc: w.size_increment() },
        Frame::Reset(r) => Got::Reset { id: r.stream_id().0, code: r.reason().into() },
    }
}

/// Parses header and payload with the library, through one of several buffers.
pub fn parse_lib(src: &mut Src, r: &Raw, dec: &mut Decoder, max: usize) -> Result<Got, String> {
    let b = r.bytes();
    let e = |x: webparse::WebError| format!("{:?}", x);
    match src.upto(3) {
        0 => {
            let mut v = Binary::from(b);
            let h = FrameHeader::parse(&mut v).map_err(e)?;
            same!("length", h.length as usize, r.payload.len());
            Ok(describe(Frame::parse(h, v, dec, max).map_err(e)?))
        }
        1 => {
            let mut v = BinaryMut::from(b);
            let h = FrameHeader::parse(&mut v).map_err(e)?;
            Ok(describe(Frame::parse(h, v, dec, max).map_err(e)?))
        }
        2 => {
            let mut v = &b[..];
            let h = FrameHeader::parse(&mut v).map_err(e)?;
            Ok(describe(Frame::parse(h, v, dec, max).map_err(e)?))
        }
        _ => {
            let mut v = Metered::new(&b);
            let h = FrameHeader::parse(&mut v).map_err(e)?;
            Ok(describe(Frame::parse(h, v, dec, max).map_err(e)?))
        }
    }
}

/// A non-zero stream id.
pub fn sid(src: &mut Src) -> u32 {
    match src.upto(3) {
        0 | 1 => src.range(1, 9) as u32,
        2 => *src.pick(&[1u32, U31, U31 - 1, 1 << 30, 0x0100_0000, 255, 256, 65535, 65536]),
        _ => src.scaled(31).max(1) as u32,
    }
}
pub fn out_buf(src: &mut Src) -> (BinaryMut, Vec<u8>) {
    let mut b = BinaryMut::new();
    let mut prefix = Vec::new();
    if src.chance(1, 3) {
        prefix = src.bytes(20);
        b.put_slice(&prefix);
    }
    (b, prefix)
}
/// What an encoder appended, after checking the reported size and the prefix.
pub fn appended(what: &str, b: &BinaryMut, prefix: &[u8], n: usize) -> Result<Vec<u8>, String> {
    let all = b.chunk();
    ensure!(all.starts_with(prefix), "{}: bytes already in the buffer changed", what);
    let v = all[prefix.len()..].to_vec();
    ensure!(v.len() == n, "{}: reported {} bytes, wrote {}", what, n, v.len());
    Ok(v)
}

// ------------------------------------------------------------------ C18
fn fixed_frames(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut enc = Encoder::new();
    let mut dec = Decoder::new();
    let (mut buf, prefix) = out_buf(src);
    let (want, got, n): (Raw, Got, usize);
    let whole = src.bool();
    let e = |x: webparse::WebError| format!("encode: {:?}", x);
    match src.upto(4) {
        0 => {
            ctx.class("PING");
            let mut p = [0u8; 8];
            for b in p.iter_mut() {
                *b = src.byte();
            }
            let ack = src.bool();
            let f = match (ack, src.bool()) {
                (false, _) => Ping::new(p),
                (true, false) => Ping::pong(p),
                (true, true) => Ping::new(p).ret_pong(),
            };
            want = raw(6, if ack { ACK } else { 0 }, 0, p.to_vec());
            got = Got::Ping { ack, data: p.to_vec() };
            n = match (whole, src.bool()) {
                (true, _) => Frame::from(f).encode(&mut buf, &mut enc).map_err(e)?,
                (false, true) => f.encode(&mut buf).map_err(e)?,
                (false, false) => f.clone().serialize(&mut buf).map_err(e)?,
            };
        }
        1 => {
            ctx.class("RST_STREAM");
            let (id, code) = (sid(src), src.scaled(32) as u32);
            let f = Reset::new(StreamIdentifier(id), Reason::from(code));
            want = raw(3, 0, id, code.to_be_bytes().to_vec());
            got = Got::Reset { id, code };
            n = if whole { Frame::from(f).encode(&mut buf, &mut enc).map_err(e)? } else { f.encode(&mut buf).map_err(e)? };
        }
        2 => {
            ctx.class("WINDOW_UPDATE");
            let (id, inc) = (if src.bool() { 0 } else { sid(src) }, src.scaled(31).max(1) as u32);
            let f = WindowUpdate::new(StreamIdentifier(id), inc);
            want = raw(8, 0, id, inc.to_be_bytes().to_vec());
            got = Got::Window { id, inc };
            n = if whole { Frame::from(f).encode(&mut buf, &mut enc).map_err(e)? } else { f.encode(&mut buf).map_err(e)? };
        }
        3 => {
            ctx.class("GOAWAY");
            let (last, code) = (src.scaled(31) as u32, src.scaled(32) as u32);
            let debug = match src.large((1 << 24) - 9) {
                Some(n) => src.bulk(n),
                None if src.bool() => src.payload(20_000),
                None => Vec::new(),
            };
            let f = if debug.is_empty() && src.bool() {
                GoAway::new(StreamIdentifier(last), Reason::from(code))
            } else {
                GoAway::with_debug_data(StreamIdentifier(last), Reason::from(code), Binary::from(debug.clone()))
            };
            let mut p = last.to_be_bytes().to_vec();
            p.extend_from_slice(&code.to_be_bytes());
            p.extend_from_slice(&debug);
            want = raw(7, 0, 0, p);
            got = Got::GoAway { last, code, debug };
            n = if whole { Frame::from(f).encode(&mut buf, &mut enc).map_err(e)? } else { f.encode(&mut buf).map_err(e)? };
        }
        _ => {
            ctx.class("PRIORITY");
            let (id, mut dep, weight, excl) = (sid(src), src.scaled(31) as u32, src.byte(), src.bool());
            if dep == id {
                dep ^= 1;
            }
            let mut p = (dep | (excl as u32) << 31).to_be_bytes().to_vec();
            p.push(weight);
            want = raw(2, 0, id, p.clone());
            got = Got::Priority { id, dep, weight };
            let h = FrameHeader { length: 5, kind: Kind::Priority, flag: Flag::zero(), id: StreamIdentifier(id) };
            let f = Priority::parse(h, &mut Binary::from(p)).map_err(|x| format!("{:?} refused: {:?}", want, x))?;
            n = if whole { Frame::from(f).encode(&mut buf, &mut enc).map_err(e)? } else { f.encode(&mut buf).map_err(e)? };
        }
    }
    ctx.input("frame", &want);
    ctx.nontrivial(true);
    let bytes = appended("encoding", &buf, &prefix, n)?;
    ensure!(bytes == want.bytes(), "{:?} encodes to {:02x?}, expected {:02x?}", got, bytes, want.bytes());
    let mut on_wire = want.clone();
    if src.chance(1, 3) {
        // reserved bits are ignored on receipt
        ctx.class("reserved bit set");
        on_wire.id |= 1 << 31;
        if matches!(want.kind, 7 | 8) {
            on_wire.payload[0] |= 0x80;
        }
    }
    if src.chance(1, 3) {
        // flags without a meaning for the type are ignored
        ctx.class("meaningless flags set");
        on_wire.flags |= src.byte() & (END_STREAM | END_HEADERS | PADDED | PRIORITY) & if want.kind == 6 { !ACK } else { 0xff };
    }
    let back = parse_lib(src, &on_wire, &mut dec, 1 << 20).map_err(|x| format!("{:?} refused: {}", on_wire, x))?;
    same!("parsed frame", back, got);
    Ok(())
}

fn frame_header(src: &mut Src, ctx: &mut Ctx) -> R {
    let kinds = [
        Kind::Data,
        Kind::Headers,
        Kind::Priority,
        Kind::Reset,
        Kind::Settings,
        Kind::PushPromise,
        Kind::Ping,
        Kind::GoAway,
        Kind::WindowUpdate,
        Kind::Continuation,
    ];
    // every kind and flag combination, random lengths and ids
    let k = (src.index % 10) as usize;
    let mut flags = 0u8;
    for (i, b) in [1u8, 4, 8, 0x20].iter().enumerate() {
        if (src.index / 10) >> i & 1 == 1 {
            flags |= b;
        }
    }
    let length = match src.index / 160 {
        0 => 0,
        1 => (1 << 24) - 1,
        _ => src.scaled(24) as u32,
    };
    let id = if src.bool() { 0 } else { sid(src) };
    ctx.input("header", &(length, kinds[k], flags, id));
    ctx.nontrivial(true);
    let mut flag = Flag::zero();
    if flags & 1 != 0 {
        flag.set_end_stream();
    }
    if flags & 4 != 0 {
        flag.set_end_headers();
    }
    if flags & 8 != 0 {
        flag.set_padded();
    }
    if flags & 0x20 != 0 {
        flag |= Flag::priority();
    }
    let mut h = FrameHeader::new(kinds[k], flag, StreamIdentifier(id));
    h.length = length;
    let (mut buf, prefix) = out_buf(src);
    let n = h.encode(&mut buf).map_err(|x| format!("{:?}", x))?;
    let got = appended("frame header", &buf, &prefix, n)?;
    let mut want = vec![(length >> 16) as u8, (length >> 8) as u8, length as u8, k as u8, flags];
    want.extend_from_slice(&id.to_be_bytes());
    ensure!(got == want, "{:?} encodes to {:02x?}, expected {:02x?}", h, got, want);
    // parse it back, reserved bit set or not, more bytes behind it
    let mut wire = want.clone();
    if src.bool() {
        wire[5] |= 0x80;
    }
    let rest = src.bytes(12);
    wire.extend_from_slice(&rest);
    let mut b = Binary::from(wire.clone());
    let back = FrameHeader::parse(&mut b).map_err(|x| format!("{:02x?} refused: {:?}", wire, x))?;
    same!("parsed header", back, h);
    same!("kind()", *back.kind(), kinds[k]);
    same!("stream_id()", back.stream_id().0, id);
    same!("flag()", back.flag(), flag);
    same!("bytes left", b.chunk().to_vec(), rest);
    same!("is_end_stream", back.flag().is_end_stream(), flags & 1 != 0);
    same!("is_ack", back.flag().is_ack(), flags & 1 != 0);
    same!("is_end_headers", back.flag().is_end_headers(), flags & 4 != 0);
    same!("is_padded", back.flag().is_padded(), flags & 8 != 0);
    same!("is_priority", back.flag().is_priority(), flags & 0x20 != 0);
    let cut = src.below(9);
    ensure!(FrameHeader::parse(&mut Binary::from(want[..cut].to_vec())).is_err(), "{} bytes accepted as a frame header", cut);
    Ok(())
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "PING (plain, pong, derived pong), RST_STREAM, WINDOW_UPDATE, GOAWAY (debug data up to 20000 bytes) and PRIORITY frames with random fields over the whole ranges, encoded and compared with the RFC bytes, then parsed through four buffer types with reserved bits set or clear; frame headers over all kinds and flag sets, boundary and random lengths and ids, cut headers; debug data of up to 2^24-9 octets. Non-trivial: all.",
        assumptions: &["known flag bits only"],
        subs: vec![
            sub("fixed_frames", Run::Random(60_000), fixed_frames),
            sub("large", Run::Random(100), |s, c| {
                s.arm(23);
                fixed_frames(s, c)
            }),
            sub("frame_header", Run::Every(160 * 40), frame_header),
        ],
    }
}

// ------------------------------------------------------------------ header block generators
pub fn lower_name(src: &mut Src) -> String {
    match src.upto(11) {
        0 => src.pick(&["x-a", "x-trace", "cookie"]).to_string(),
        1..=4 => href::STATIC[src.range(14, 60) as usize].0.to_string(),
        _ => hname(src).to_ascii_lowercase(),
    }
}
pub fn field_value(src: &mut Src, big: bool) -> Vec<u8> {
    match src.upto(5) {
        0 => src.pick(&[&b""[..], b"a", b"gzip, deflate", b"/", b"200"]).to_vec(),
        1 => format!("v{}", src.upto(40)).into_bytes(),
        2 => {
            // one of a family of values that differ in one octet
            let n = *src.pick(&[2usize, 17, 33, 65, 129]);
            let mut v = vec![b'k'; n];
            let at = *src.pick(&[0, n / 2, n - 1]);
            v[at] = *src.pick(b"kK1");
            v
        }
        3 => src.payload(40),
        _ => {
            if big && src.chance(1, 100) {
                super::hpack::edge_string(src)
            } else if big {
                src.payload(9000)
            } else {
                src.payload(300)
            }
        }
    }
}
/// Regular fields with distinct names.
pub fn regular(src: &mut Src, max: usize, big: bool) -> Vec<Field> {
    let mut out: Vec<Field> = Vec::new();
    let mut n = 0;
    while src.more(n, max, 4) {
        n += 1;
        let name = lower_name(src).into_bytes();
        let v = field_value(src, big);
        if name.starts_with(b":") || out.iter().any(|f| f.0 == name) {
            continue;
        }
        out.push((name, v));
    }
    for i in 0..src.stretch(200, 9) {
        let name = format!("x-r{}", i).into_bytes();
        if !out[..out.len().min(max)].iter().any(|f| f.0 == name) {
            out.push((name, src.bulk_of(i % 5, b"abc01")));
        }
    }
    out
}
fn pseudo_value(src: &mut Src, name: &str) -> String {
    match name {
        ":method" => src.pick(methods()).to_string(),
        ":protocol" => src.pick(&["websocket", "connect-udp", ""]).to_string(),
        ":scheme" => match src.upto(7) {
            0..=5 => src.pick(&["http", "https", "ws", "wss", "ftp", "git+ssh"]).to_string(),
            6 => src.pick(&["Foo", "GIT+ssh", "fTp", "coap-x.1"]).to_string(),
            _ => {
                let n = src.range(5, 20) as usize;
                String::from_utf8(src.bulk_of(n, b"abcxyzABCXYZ019+-.")).unwrap_or_default().replace(|c: char| !c.is_ascii(), "")
            }
        },
        ":authority" => match src.upto(2) {
            0 => host(src),
            1 => format!("{}:{}", host(src), port(src)),
            _ => text(src, 20),
        },
        ":path" => match src.upto(5) {
            4 => "*".to_string(),
            5 => src.pick(&["", "//", "/?", "?a", "/a/", "/%2F"]).to_string(),
            0 => "/".to_string(),
            1 => "/index.html".to_string(),
            2 => format!("/{}", text(src, 30)),
            _ => {
                let n = src.size(3000);
                format!("/{}", "p".repeat(n))
            }
        },
        _ => match src.upto(2) {
            0 => src.pick(&["200", "204", "206", "304", "400", "404", "500"]).to_string(),
            _ => src.range(100, 999).to_string(),
        },
    }
}
/// Request or response pseudo-header fields (sorted by name).
pub fn pseudos(src: &mut Src, always: bool) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let names: &[&str] = match src.upto(3) {
        0 => &[":authority", ":method", ":path", ":scheme"],
        1 => &[":authority", ":method", ":path", ":scheme", ":protocol"],
        2 => &[":status"],
        _ => &[":authority", ":method", ":path", ":scheme", ":status"],
    };
    for n in names {
        if always || src.chance(4, 5) {
            v.push((n.to_string(), pseudo_value(src, n)));
        }
    }
    v.sort();
    v
}
fn split_pseudo(l: &[Field]) -> Result<(Vec<(String, String)>, Vec<Field>), String> {
    let mut p = Vec::new();
    let mut r = Vec::new();
    for (n, v) in l {
        if n.starts_with(b":") {
            ensure!(r.is_empty(), "pseudo-header field {} after a regular field", show(n));
            p.push((
                String::from_utf8_lossy(n).to_ascii_lowercase(),
                String::from_utf8(v.clone()).map_err(|_| format!("{} is not UTF-8", show(n)))?,
            ));
        } else {
            r.push((n.to_ascii_lowercase(), v.clone()));
        }
    }
    p.sort();
    Ok((p, r))
}
pub fn fields_text(l: &[Field]) -> String {
    l.iter().map(|(n, v)| format!("{}={}", show(n), show(v))).collect::<Vec<_>>().join(" | ")
}
/// A header block from the reference encoder: pseudo fields, then regular ones.
pub fn ref_block(src: &mut Src, t: &mut Table, pseudo: &[(String, String)], fields: &[Field]) -> Vec<u8> {
    let mut order: Vec<Field> = pseudo.iter().map(|(n, v)| (n.clone().into_bytes(), v.clone().into_bytes())).collect();
    src.shuffle(&mut order);
    order.extend_from_slice(fields);
    let mut out = Vec::new();
    for f in &order {
        href::encode_field(src, t, f, &mut out);
    }
    out
}

// ------------------------------------------------------------------ C19
/// A well-formed frame of any kind but CONTINUATION, and the fields it carries.
pub fn good_frame(src: &mut Src, t: &mut Table, kind: u8) -> Raw {
    let id = sid(src);
    match kind {
        0 => {
            let d = src.payload(200);
            let fl = src_flag(src, END_STREAM);
            pad(src, raw(0, fl, id, d))
        }
        1 => {
            let p = pseudos(src, false);
            let f = regular(src, 6, false);
            let mut b = ref_block(src, t, &p, &f);
            let mut flags = END_HEADERS | src_flag(src, END_STREAM);
            if src.bool() {
                flags |= PRIORITY;
                let mut x = dependency(src, id);
                x.extend_from_slice(&b);
                b = x;
            }
            pad(src, raw(1, flags, id, b))
        }
        2 => {
            let p = dependency(src, id);
            raw(2, 0, id, p)
        }
        3 => raw(3, 0, id, (src.scaled(32) as u32).to_be_bytes().to_vec()),
        4 => {
            if src.chance(1, 4) {
                raw(4, ACK, 0, vec![])
            } else {
                let n = src.size(6) + src.stretch(60, 8) as usize;
                let mut p = Vec::new();
                for _ in 0..n {
                    let (k, v) = legal_setting(src);
                    p.extend_from_slice(&k.to_be_bytes());
                    p.extend_from_slice(&v.to_be_bytes());
                }
                raw(4, 0, 0, p)
            }
        }
        5 => {
            let p = pseudos(src, false);
            let f = regular(src, 6, false);
            let mut b = (src.scaled(31) as u32).to_be_bytes().to_vec();
            b.extend_from_slice(&ref_block(src, t, &p, &f));
            pad(src, raw(5, END_HEADERS, id, b))
        }
        6 => {
            let p = src.bulk(8);
            raw(6, src_flag(src, ACK), 0, p)
        }
        7 => {
            let mut p = (src.scaled(31) as u32).to_be_bytes().to_vec();
            p.extend_from_slice(&(src.scaled(32) as u32).to_be_bytes());
            p.extend_from_slice(&src.payload(50));
            raw(7, 0, 0, p)
        }
        _ => raw(8, 0, if src.bool() { id } else { 0 }, (src.scaled(31).max(1) as u32).to_be_bytes().to_vec()),
    }
}
pub fn src_flag(src: &mut Src, f: u8) -> u8 {
    if src.bool() {
        f
    } else {
        0
    }
}
fn dependency(src: &mut Src, id: u32) -> Vec<u8> {
    let mut dep = src.scaled(31) as u32;
    if dep == id {
        dep ^= 1;
    }
    let mut p = (dep | (src.bool() as u32) << 31).to_be_bytes().to_vec();
    p.push(src.byte());
    p
}
/// Maybe pads a DATA, HEADERS or PUSH_PROMISE frame.
fn pad(src: &mut Src, mut r: Raw) -> Raw {
    if src.bool() {
        let n = src.size(255);
        let bytes = if src.bool() { vec![0u8; n] } else { src.bulk(n) };
        r.flags |= PADDED;
        r.payload.insert(0, n as u8);
        r.payload.extend_from_slice(&bytes);
    }
    r
}
fn legal_setting(src: &mut Src) -> (u16, u32) {
    match src.upto(7) {
        0 => (1, src.scaled(32) as u32),
        1 => (2, src.upto(1) as u32),
        2 => (3, src.scaled(32) as u32),
        3 => (4, src.scaled(31) as u32),
        4 => (
            5,
            match src.upto(2) {
                0 => 16384,
                1 => (1 << 24) - 1,
                _ => src.range(16384, (1 << 24) - 1) as u32,
            },
        ),
        5 => (6, src.scaled(32) as u32),
        6 => (8, src.upto(1) as u32),
        _ => {
            // an unknown identifier, often close to a known one
            let known = src.range(1, 8) as u16;
            let id = match src.upto(3) {
                0 => *src.pick(&[0u16, 7, 9, 10, 0x100, 0x102, 0x201, 0x500, 0x800, 0xffff]),
                1 => known | (src.byte() as u16) << 8,
                2 => known ^ 1 << src.upto(15),
                _ => src.scaled(16) as u16,
            };
            (if matches!(id, 1..=6 | 8) { id | 0x8000 } else { id }, src.scaled(32) as u32)
        }
    }
}

fn faults(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut dec = Decoder::new();
    let mut table = Table::new();
    let kind = src.upto(8) as u8;
    let mut good = good_frame(src, &mut table, kind);
    let mut bad = good.clone();
    let max = 1 << 20;
    let fault = match kind {
        6 | 3 | 8 => {
            let want = if kind == 6 { 8 } else { 4 };
            match src.upto(2) {
                1 if kind == 6 => {
                    bad.id = sid(src);
                    "PING on a stream"
                }
                1 if kind == 8 => {
                    bad.payload = if src.bool() { vec![0, 0, 0, 0] } else { vec![0x80, 0, 0, 0] };
                    "zero window increment"
                }
                _ => {
                    let n = if src.bool() { src.below(want) } else { want + 1 + src.size(20) };
                    bad.payload.resize(n, src.byte());
                    match kind {
                        6 => "PING length",
                        3 => "RST_STREAM length",
                        _ => "WINDOW_UPDATE length",
                    }
                }
            }
        }
        7 => {
            bad.payload.truncate(src.below(8));
            "GOAWAY shorter than 8"
        }
        2 => {
            if src.bool() {
                bad.payload.truncate(src.below(5));
                "PRIORITY shorter than 5"
            } else {
                let excl = bad.payload[0] & 0x80;
                bad.payload[..4].copy_from_slice(&bad.id.to_be_bytes());
                bad.payload[0] |= excl;
                "PRIORITY depending on itself"
            }
        }
        4 => match src.upto(2) {
            0 => {
                bad.id = sid(src);
                "SETTINGS on a stream"
            }
            1 => {
                bad.flags = 0;
                let k = 1 + src.below(5);
                let at = bad.payload.len() / 6 * 6;
                bad.payload.truncate(at);
                for _ in 0..k {
                    bad.payload.push(src.byte());
                }
                "SETTINGS length not a multiple of 6"
            }
            _ => {
                bad.flags = ACK;
                let n = if src.bool() { 6 * src.range(1, 3) as usize } else { 1 + src.size(20) };
                bad.payload = src.bulk(n);
                "SETTINGS acknowledgement with payload"
            }
        },
        0 | 1 | 5 => {
            let padded = bad.flags & PADDED != 0;
            match src.upto(3) {
                0 if kind == 0 => {
                    bad.id = 0;
                    "DATA on stream 0"
                }
                1 if kind == 1 => {
                    bad.flags = (bad.flags | PRIORITY) & !PADDED;
                    bad.payload.resize(src.below(5), 0);
                    maybe_pad(src, &mut bad);
                    "priority-flagged HEADERS shorter than 5"
                }
                1 if kind == 5 => {
                    bad.flags &= !PADDED;
                    bad.payload.resize(src.below(4), 0);
                    maybe_pad(src, &mut bad);
                    "PUSH_PROMISE shorter than 4"
                }
                2 => {
                    bad.flags |= PADDED;
                    bad.payload.clear();
                    "padded frame without a pad length"
                }
                _ => {
                    if !padded {
                        bad.flags |= PADDED;
                        bad.payload.insert(0, 0);
                    }
                    bad.payload.truncate(1 + src.upto(255).min(254) as usize);
                    let room = bad.payload.len(); // pad length must be below this
                    bad.payload[0] = match src.upto(2) {
                        0 => room.min(255) as u8,
                        1 => 255,
                        _ => src.range(room.min(255) as u64, 255) as u8,
                    };
                    "padding does not fit"
                }
            }
        }
        _ => unreachable!(),
    };
    // flags without a meaning for the type, in both
    if !matches!(kind, 0 | 1 | 5) && src.chance(1, 4) {
        let f = src.byte() & (END_HEADERS | PADDED | PRIORITY);
        good.flags |= f;
        bad.flags |= f;
    }
    ctx.input("good", &good);
    ctx.input("fault", &fault);
    ctx.input("bad", &bad);
    ctx.class(fault);
    ctx.nontrivial(true);
    let mut fresh = Decoder::new();
    if let Ok(g) = parse_lib(src, &bad, &mut fresh, max) {
        return Err(format!("{}: {:?} accepted as {:?}", fault, bad, g));
    }
    parse_lib(src, &good, &mut dec, max).map_err(|e| format!("the frame without the fault ({:?}) is refused: {}", good, e))?;
    Ok(())
}

/// Padding, so that the payload is long and its content is not.
fn maybe_pad(src: &mut Src, r: &mut Raw) {
    if src.bool() {
        let n = src.upto(20) as u8;
        r.flags |= PADDED;
        r.payload.insert(0, n);
        r.payload.extend(vec![0; n as usize]);
    }
}
/// Header lists on one connection, each under a limit of its own.
fn list_limit(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut dec, mut table) = (Decoder::new(), Table::new());
    for round in 0..src.range(1, 6) {
        let id = sid(src);
        let promised = sid(src);
        let pseudo = pseudos(src, false);
        let mut fields = regular(src, 8, false);
        let mut listed = fields.clone();
        let repeated = src.chance(1, 4) && !fields.is_empty();
        if repeated {
            for _ in 0..src.range(1, 4) {
                let f = src.pick(&fields).clone();
                listed.push(f);
            }
        }
        if src.chance(1, 10) {
            let (n, k) = (src.size(3000), src.upto(3) as usize);
            let v = src.bulk_of(n, b"abc 01;=");
            fields.retain(|f| f.0 != b"x-long");
            listed.retain(|f| f.0 != b"x-long");
            fields.push((b"x-long".to_vec(), v.clone()));
            for _ in 0..=k {
                listed.push((b"x-long".to_vec(), v.clone()));
            }
        }
        let repeated = repeated || listed.len() != fields.len();
        // RFC 7540, 6.5.2: the octets of name and value of every field, and 32 for each
        let total: usize = pseudo.iter().map(|(n, v)| n.len() + v.len() + 32).sum::<usize>()
            + listed.iter().map(|(n, v)| n.len() + v.len() + 32).sum::<usize>();
        let limit = match src.upto(9) {
            0 | 1 => total,
            2 | 3 => total.saturating_sub(1),
            4 => total + 1,
            5 => total.saturating_sub(src.range(1, 40) as usize),
            6 => total + src.range(1, 40) as usize,
            7 => src.size(2 * total),
            8 => *src.pick(&[0usize, 1, 31, 32, 33, 16384, 65536, u32::MAX as usize, usize::MAX]),
            _ => src.scaled(63) as usize,
        };
        let push = src.chance(1, 3);
        let end = src.bool();
        let mut flags = END_HEADERS;
        let mut payload = Vec::new();
        let want = if push {
            payload.extend_from_slice(&(promised | (src.bool() as u32) << 31).to_be_bytes());
            Got::Push { id, promised, pseudo: pseudo.clone(), fields: fields.clone() }
        } else {
            flags |= if end { END_STREAM } else { 0 };
            if src.bool() {
                flags |= PRIORITY;
                payload.extend_from_slice(&dependency(src, id));
            }
            Got::Headers { id, end_stream: end, end_headers: true, pseudo: pseudo.clone(), fields: fields.clone() }
        };
        payload.extend_from_slice(&ref_block(src, &mut table, &pseudo, &listed));
        let r = pad(src, raw(if push { 5 } else { 1 }, flags, id, payload));
        ctx.input("frame", &r);
        ctx.input("content", &want);
        ctx.input("size and limit", &(total, limit));
        ctx.nontrivial(total != 0);
        ctx.class_if(total == limit, "exactly the limit");
        ctx.class_if(total == limit.wrapping_add(1), "one octet over");
        ctx.class_if(total > limit, "over the limit");
        ctx.class_if(repeated, "repeated fields");
        ctx.class_if(push, "PUSH_PROMISE");
        let got = parse_lib(src, &r, &mut dec, limit);
        if total > limit {
            ensure!(
                got.is_err(),
                "frame {}: a header list of {} octets accepted under a limit of {} ({:?})",
                round, total, limit, r
            );
            continue;
        }
        let got = got.map_err(|e| format!("frame {}: a header list of {} octets refused under a limit of {}: {} ({:?})", round, total, limit, e, r))?;
        match (got, want) {
            // which of several fields of one name a map keeps is not claimed here
            (Got::Headers { pseudo: p, .. }, _) | (Got::Push { pseudo: p, .. }, _) if repeated => same!("pseudo-headers", p, pseudo),
            (got, want) => ensure!(got == want, "frame {}: {:?} parses as {:?}, expected {:?}", round, r, got, want),
        }
    }
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "well-formed frames of the nine kinds with random fields, padding and priority; one fault from the property's list is injected: the faulty frame must be refused and the original accepted; 1-6 header frames on one connection (padded or not, with priority fields, repeated fields and values up to 3000 octets), each under a size limit at, around or away from its list; a share of the blocks has hundreds of fields or up to 1 MiB. Non-trivial: all faults, non-empty lists.",
        assumptions: &["frames are parsed with exactly their payload in the buffer"],
        subs: vec![
            sub("faults", Run::Random(60_000), faults),
            sub("list_limit", Run::Random(12_000), list_limit),
        ],
    }
}

// ------------------------------------------------------------------ C20
fn data_split(src: &mut Src, ctx: &mut Ctx) -> R {
    let max = match src.upto(4) {
        0 => src.range(1, 10) as usize,
        1 => src.range(1, 300) as usize,
        2 => 16384,
        3 => *src.pick(&[1usize, 2, 16384, 16385, 65535, 65536, (1 << 24) - 1]),
        _ => src.scaled(24).max(1) as usize,
    };
    let n = match src.upto(3) {
        0 => src.size(40),
        1 => {
            // around a multiple of the limit
            let k = src.range(1, 4) as usize;
            (max.min(20_000) * k + src.upto(2) as usize).saturating_sub(1)
        }
        2 => src.size(3000),
        _ => src.upto(70_000) as usize,
    };
    let n = src.large(1 << 24).unwrap_or(n);
    let n = n.min(max.saturating_mul(400));
    let mut data = src.bulk(n);
    if n > max && max <= 20_000 && src.chance(1, 6) {
        // every frame holds the same octets
        for i in max..n {
            data[i] = data[i - max];
        }
    }
    let id = sid(src);
    let end = src.bool();
    ctx.input("max", &max);
    ctx.input("length", &n);
    ctx.input("end", &(end, id));
    ctx.nontrivial(n > max);
    ctx.class_if(n > max, "several frames");
    ctx.class_if(n > 0 && n % max == 0, "multiple of the limit");
    ctx.class_if(n == 0, "empty");
    let mut flag = Flag::zero();
    let early = src.bool();
    if end && early {
        flag.set_end_stream();
    }
    let mut d = Data::new(FrameHeader::new(Kind::Data, flag, StreamIdentifier(id)), Binary::from(data.clone()));
    if end && !early {
        d.set_end_stream(true);
    }
    if !end && src.bool() {
        d.set_end_stream(src.bool());
        d.set_end_stream(false);
    }
    same!("is_end_stream", d.is_end_stream(), end);
    // a frame of another kind of payload is the same frame
    let mapped = src.chance(1, 4);
    if mapped {
        let padded = src.bool();
        if padded {
            d.set_padded();
        }
        let before = d.flags();
        let m = d.map(|b| (b, n));
        same!("map: payload", m.payload().1, n);
        ensure!(m.flags() == before && m.is_padded() == padded, "map: flags {:?}, expected {:?}", m.flags(), before);
        same!("map: is_end_stream", m.is_end_stream(), end);
        same!("map: stream", m.stream_id().0, id);
        d = m.map(|(b, _)| b);
        ensure!(d.flags() == before, "map twice: flags {:?}, expected {:?}", d.flags(), before);
        ctx.class("payload mapped");
    }
    let mut enc = Encoder::new_index(Arc::new(RwLock::new(HeaderIndex::new())), max);
    let (mut buf, prefix) = out_buf(src);
    let n_out = if src.bool() { Frame::Data(d).encode(&mut buf, &mut enc) } else { d.encode(&mut enc, &mut buf) }
        .map_err(|x| format!("encode: {:?}", x))?;
    let bytes = appended("DATA", &buf, &prefix, n_out)?;
    let frames = split_frames(&bytes)?;
    ensure!(!frames.is_empty(), "no frame written");
    let mut whole = Vec::new();
    for (i, f) in frames.iter().enumerate() {
        let last = i + 1 == frames.len();
        ensure!(f.kind == 0 && f.id == id, "frame {} is {:?}", i, (f.kind, f.id));
        ensure!(f.payload.len() <= max, "frame {} has {} bytes, limit {}", i, f.payload.len(), max);
        let want = if last && end { END_STREAM } else { 0 };
        ensure!(f.flags == want, "frame {} of {} has flags {:#x}, expected {:#x}", i, frames.len(), f.flags, want);
        whole.extend_from_slice(&f.payload);
        if frames.len() <= 20 {
            let mut dec = Decoder::new();
            match parse_lib(src, f, &mut dec, 1000)? {
                Got::Data { id: i2, end: e2, data } => {
                    ensure!(i2 == id && e2 == (last && end) && data == f.payload, "frame {} does not parse back", i)
                }
                g => return Err(format!("frame {} parses as {:?}", i, g)),
            }
        }
    }
    ensure!(whole == data, "payloads concatenate to {} bytes that differ from the {} given", whole.len(), data.len());
    Ok(())
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "payloads of 0-70000 bytes (also exactly at and around multiples of the limit) and limits from 1 to 2^24-1; END_STREAM set at construction, afterwards, or set and withdrawn; a share of the payloads is up to 16 MiB long. Non-trivial: more than one frame.",
        assumptions: &["the frame is built unpadded; padded frames are C31"],
        subs: vec![
            sub("data_split", Run::Random(20_000), data_split),
            sub("large", Run::Random(100), |s, c| {
                s.arm(23);
                data_split(s, c)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C21
struct Peer {
    dec: Decoder,
    model: Table,
}

fn check_block(src: &mut Src, peer: &mut Peer, frames: &[Raw], first_kind: u8, id: u32, end: bool, max: usize) -> Result<(Vec<Field>, Got), String> {
    let mut block = Vec::new();
    for (i, f) in frames.iter().enumerate() {
        let last = i + 1 == frames.len();
        let kind = if i == 0 { first_kind } else { 9 };
        ensure!(f.kind == kind, "frame {} has type {}, expected {}", i, f.kind, kind);
        ensure!(f.id == id, "frame {} is on stream {}, expected {}", i, f.id, id);
        ensure!(f.payload.len() <= max, "frame {} of {} has {} bytes, limit {}", i, frames.len(), f.payload.len(), max);
        let mut want = if last { END_HEADERS } else { 0 };
        if i == 0 && end {
            want |= END_STREAM;
        }
        ensure!(f.flags == want, "frame {} of {} (type {}) has flags {:#x}, expected {:#x}", i, frames.len(), f.kind, f.flags, want);
        block.extend_from_slice(&f.payload);
    }
    let skip = if first_kind == 5 { 4 } else { 0 };
    ensure!(block.len() >= skip, "no promised stream id");
    let l = href::decode(&mut peer.model, &block[skip..])
        .ok_or_else(|| format!("an RFC 7541 decoder refuses the block {:02x?}", &block[skip..]))?;
    let whole = raw(first_kind, END_HEADERS | if end { END_STREAM } else { 0 }, id, block);
    let g = parse_lib(src, &whole, &mut peer.dec, 1 << 24).map_err(|e| format!("own header block refused: {}", e))?;
    Ok((l, g))
}

fn header_frames(src: &mut Src, ctx: &mut Ctx) -> R {
    // a new encoder keeps to the frame size every peer accepts
    let fresh = src.chance(1, 3);
    let mut enc = if fresh { Encoder::new() } else { Encoder::new_index(Arc::new(RwLock::new(HeaderIndex::new())), 16384) };
    let mut peer = Peer { dec: Decoder::new(), model: Table::new() };
    let count = src.range(1, 5);
    for round in 0..count {
        let max = match src.upto(4) {
            0 => 16384,
            1 => src.range(1, 20) as usize,
            2 => src.range(1, 300) as usize,
            3 => *src.pick(&[1usize, 2, 3, 4, 5, 9, 100, 16384, 65536]),
            _ => src.scaled(24).max(1) as usize,
        };
        let push = src.chance(1, 3);
        let max = if push { max.max(4) } else { max };
        let max = if fresh && round == 0 {
            16384
        } else {
            enc.max_frame_size = max;
            max
        };
        let mut pseudo = pseudos(src, false);
        if push {
            // extended CONNECT is no method of a pushed request
            pseudo.retain(|p| p.0 != ":protocol");
        }
        let fields = regular(src, 10, true);
        let id = sid(src);
        let promised = sid(src);
        let end = src.bool();
        ctx.input("limit", &max);
        ctx.input("frame", &(push, id, promised, end));
        ctx.input("pseudo", &pseudo);
        ctx.input("fields", &fields_text(&fields));
        // pseudo-header fields through the setters or through the field list
        let mut map = HeaderMap::new();
        let mut by_setter = Vec::new();
        let mut in_map = Vec::new();
        for (n, v) in &pseudo {
            // a push has no setter for the scheme
            if src.bool() && !(push && n == ":scheme") && n != ":protocol" {
                by_setter.push((n.clone(), v.clone()));
            } else {
                in_map.push((n.clone().into_bytes(), v.clone().into_bytes()));
            }
        }
        let mut entries: Vec<Field> = in_map.clone();
        entries.extend_from_slice(&fields);
        if src.bool() {
            // anywhere in the list, keeping the order of the regular fields
            let mut mixed = fields.clone();
            for p in in_map.iter() {
                let k = src.below(mixed.len() + 1);
                mixed.insert(k, p.clone());
            }
            entries = mixed;
        }
        for (n, v) in &entries {
            let n = std::str::from_utf8(n).unwrap();
            let n = recase(src, n);
            map.insert(mk_name(src, &n), mk_value(src, v));
        }
        let mut flag = Flag::zero();
        let when = src.upto(2);
        if end && when == 0 {
            flag.set_end_stream();
        }
        let eh = src.bool();
        if eh {
            flag.set_end_headers();
        }
        let (mut buf, prefix) = out_buf(src);
        let n_out;
        if push {
            ctx.class("PUSH_PROMISE");
            let mut f = PushPromise::new(FrameHeader::new(Kind::PushPromise, flag, StreamIdentifier(id)), StreamIdentifier(promised), map);
            if end && when != 0 {
                f.set_end_stream();
            }
            for (n, v) in &by_setter {
                match n.as_str() {
                    ":method" => f.set_method(Method::try_from(v.as_str()).map_err(|e| format!("{:?}", e))?),
                    ":authority" => f.set_authority(v.clone()),
                    ":path" => f.set_path(v.clone()),
                    _ => f.set_status(StatusCode::try_from(v.as_str()).map_err(|e| format!("{:?}", e))?),
                }
            }
            same!("promised_id", f.promised_id().0, promised);
            n_out = if src.bool() { f.encode(&mut enc, &mut buf) } else { Frame::from(f).encode(&mut buf, &mut enc) }
        } else {
            ctx.class("HEADERS");
            let mut f = Headers::new(FrameHeader::new(Kind::Headers, flag, StreamIdentifier(id)), map);
            if end && when != 0 {
                f.set_end_stream();
            }
            if src.bool() {
                f.set_end_headers();
            }
            for (n, v) in &by_setter {
                match n.as_str() {
                    ":method" => f.set_method(Method::try_from(v.as_str()).map_err(|e| format!("{:?}", e))?),
                    ":scheme" => f.set_scheme(Scheme::try_from(v.as_str()).map_err(|e| format!("{:?}", e))?),
                    ":authority" => f.set_authority(v.clone()),
                    ":path" => f.set_path(v.clone()),
                    _ => f.set_status(StatusCode::try_from(v.as_str()).map_err(|e| format!("{:?}", e))?),
                }
            }
            n_out = if src.bool() { f.encode(&mut enc, &mut buf) } else { Frame::from(f).encode(&mut buf, &mut enc) }
        }
        let n_out = n_out.map_err(|e| format!("encode: {:?}", e))?;
        let bytes = appended("header frame", &buf, &prefix, n_out)?;
        let frames = split_frames(&bytes)?;
        ctx.nontrivial(frames.len() > 1);
        ctx.class_if(frames.len() > 1 + push as usize, "CONTINUATION");
        ctx.class_if(!by_setter.is_empty() && !in_map.is_empty(), "pseudo-headers from both places");
        ctx.class_if(fields.iter().any(|f| f.0.len() + f.1.len() > max), "one field over the limit");
        let at = format!("frame {}", round);
        let mut decoded = Vec::new();
        let mut parsed_pseudo = Vec::new();
        let mut parsed_fields = Vec::new();
        let mut rest = &frames[..];
        if push {
            let k = rest.iter().position(|f| f.kind == 1).ok_or(format!("{}: no HEADERS frame in {:?}", at, frames))?;
            let (l, g) = check_block(src, &mut peer, &rest[..k], 5, id, false, max).map_err(|e| format!("{}: push: {}", at, e))?;
            let (p, r) = split_pseudo(&l).map_err(|e| format!("{}: {}", at, e))?;
            ensure!(p.iter().all(|x| x.0 != ":status"), "{}: a :status in the PUSH_PROMISE block", at);
            match g {
                Got::Push { id: gi, promised: gp, pseudo, fields } => {
                    ensure!(gi == id && gp == promised, "{}: parsed push is on {} promising {}", at, gi, gp);
                    ensure!(pseudo == p && fields == r, "{}: parsed push has {:?} and {}, its block says {:?} and {}", at, pseudo, fields_text(&fields), p, fields_text(&r));
                }
                g => return Err(format!("{}: the push parses as {:?}", at, g)),
            }
            parsed_pseudo.extend(p);
            parsed_fields.extend(r);
            decoded.extend(l);
            rest = &rest[k..];
        }
        let hid = if push { promised } else { id };
        let (l, g) = check_block(src, &mut peer, rest, 1, hid, end, max).map_err(|e| format!("{}: {}", at, e))?;
        let (p, r) = split_pseudo(&l).map_err(|e| format!("{}: {}", at, e))?;
        match g {
            Got::Headers { id: gi, end_stream, pseudo, fields, .. } => {
                ensure!(gi == hid && end_stream == end, "{}: parsed HEADERS is on {}, end {}", at, gi, end_stream);
                ensure!(pseudo == p && fields == r, "{}: parsed HEADERS has {:?} and {}, its block says {:?} and {}", at, pseudo, fields_text(&fields), p, fields_text(&r));
            }
            g => return Err(format!("{}: HEADERS parses as {:?}", at, g)),
        }
        if push {
            ensure!(p.iter().all(|x| x.0 == ":status"), "{}: request pseudo-headers outside the PUSH_PROMISE: {:?}", at, p);
        }
        parsed_pseudo.extend(p);
        parsed_fields.extend(r);
        parsed_pseudo.sort();
        ensure!(parsed_pseudo == pseudo, "{}: pseudo-headers {:?}, expected {:?}", at, parsed_pseudo, pseudo);
        ensure!(parsed_fields == fields, "{}: fields {}, expected {}", at, fields_text(&parsed_fields), fields_text(&fields));
        let _ = decoded;
    }
    Ok(())
}

/// Received HEADERS frames are equal exactly when they say the same.
fn identity(src: &mut Src, ctx: &mut Ctx) -> R {
    #[derive(Clone, PartialEq, Debug)]
    struct Said {
        id: u32,
        end_stream: bool,
        end_headers: bool,
        priority: Option<(bool, u32, u8)>,
        pseudo: Vec<(String, String)>,
        fields: Vec<Field>,
    }
    let a = Said {
        id: sid(src),
        end_stream: src.bool(),
        end_headers: src.bool(),
        priority: if src.bool() { Some((src.bool(), src.upto(0x7fff_ffff) as u32, src.byte())) } else { None },
        pseudo: pseudos(src, false),
        fields: regular(src, 4, true),
    };
    let mut b = a.clone();
    let change = src.upto(9);
    match change {
        0 => {}
        1 => b.id = sid(src),
        2 => b.end_stream = !b.end_stream,
        3 => b.end_headers = !b.end_headers,
        4 => b.priority = if src.bool() { Some((src.bool(), src.scaled(31) as u32 & 0x7fff_ffff, src.byte())) } else { None },
        5 | 6 => {
            if let Some(p) = &mut b.priority {
                match src.upto(2) {
                    0 => p.0 = !p.0,
                    1 => p.1 ^= 1 << src.upto(30),
                    _ => p.2 ^= 1 << src.upto(7),
                }
            }
        }
        7 => {
            let k = src.below(b.pseudo.len().max(1));
            if k < b.pseudo.len() {
                b.pseudo.remove(k);
            }
        }
        8 => {
            let k = src.below(b.fields.len().max(1));
            if k < b.fields.len() {
                b.fields.remove(k);
            }
        }
        _ => {
            let k = src.below(b.fields.len().max(1));
            if let Some(f) = b.fields.get_mut(k) {
                f.1.push(b'+');
            }
        }
    }
    ctx.input("frames", &(&a, &b));
    ctx.class(if a == b { "the same" } else { "different" });
    ctx.nontrivial(a.priority.is_some() || !a.fields.is_empty());
    let mut got = Vec::new();
    for s in [&a, &b] {
        let mut list: Vec<Field> = s.pseudo.iter().map(|(n, v)| (n.clone().into_bytes(), v.clone().into_bytes())).collect();
        list.extend(s.fields.iter().cloned());
        let mut payload = Vec::new();
        if let Some((ex, dep, w)) = s.priority {
            payload.extend((dep | if ex { 1 << 31 } else { 0 }).to_be_bytes());
            payload.push(w);
        }
        for (n, v) in &list {
            super::hpack_ref::put_int(&mut payload, 0, 4, 0);
            super::hpack_ref::put_str(&mut payload, n, src.bool());
            super::hpack_ref::put_str(&mut payload, v, src.bool());
        }
        let flags = s.end_stream as u8 | (s.end_headers as u8) << 2 | (s.priority.is_some() as u8) << 5;
        let head = FrameHeader::new(Kind::Headers, Flag::new(flags).map_err(|_| "flags")?, StreamIdentifier(s.id));
        let mut h = Headers::new(head, HeaderMap::new());
        let len = payload.len();
        let n = h.parse(Binary::from(payload), &mut Decoder::new(), 1 << 24).map_err(|e| format!("refused: {:?}", e))?;
        if s.priority.is_none() {
            same!("octets consumed", n, len);
        }
        got.push(h);
    }
    ensure!((got[0] == got[1]) == (a == b), "the frames compare {}: {:?} and {:?}", if a == b { "different" } else { "equal" }, got[0], got[1]);
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "1-5 HEADERS or PUSH_PROMISE frames on one connection with changing frame size limits (1 to 2^24-1; 4 and up for a push), pseudo-headers set through setters or anywhere in the field list, fields up to 9000 bytes; the wire is split into frames and checked, and the blocks decoded by an RFC reference decoder and by the library. Non-trivial: more than one frame on the wire.",
        assumptions: &["field names distinct; pseudo-header values are UTF-8 text"],
        subs: vec![
            sub("header_frames", Run::Random(6_000), header_frames),
            sub("identity", Run::Random(20_000), identity),
            sub("large", Run::Random(100), |s, c| {
                s.arm(20);
                header_frames(s, c)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C22
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn base64url(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(B64[(n >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    s
}
/// id -> value, as the last occurrence says
type Set = std::collections::BTreeMap<u16, u32>;

fn settings_check(s: &Settings, m: &Set) -> R {
    same!("header_table_size", s.header_table_size(), m.get(&1).copied());
    same!("is_push_enabled", s.is_push_enabled(), m.get(&2).map(|v| *v != 0));
    same!("max_concurrent_streams", s.max_concurrent_streams(), m.get(&3).copied());
    same!("initial_window_size", s.initial_window_size(), m.get(&4).copied());
    same!("max_frame_size", s.max_frame_size(), m.get(&5).copied());
    same!("max_header_list_size", s.max_header_list_size(), m.get(&6).copied());
    same!("connect protocol", s.is_extended_connect_protocol_enabled(), m.get(&8).map(|v| *v != 0));
    ensure!(!s.is_ack(), "settings with values are an acknowledgement");
    Ok(())
}
fn settings_wire(l: &[(u16, u32)]) -> Vec<u8> {
    let mut p = Vec::new();
    for (k, v) in l {
        p.extend_from_slice(&k.to_be_bytes());
        p.extend_from_slice(&v.to_be_bytes());
    }
    p
}
fn records(p: &[u8]) -> Result<Set, String> {
    ensure!(p.len() % 6 == 0, "payload of {} bytes", p.len());
    let mut m = Set::new();
    for c in p.chunks(6) {
        let k = u16::from_be_bytes([c[0], c[1]]);
        ensure!(m.insert(k, u32::from_be_bytes([c[2], c[3], c[4], c[5]])).is_none(), "setting {} twice", k);
    }
    Ok(m)
}

/// Flags without a meaning for SETTINGS, and the reserved bit of the stream.
fn other_flags(src: &mut Src, mut r: Raw) -> Raw {
    if src.chance(1, 4) {
        r.flags |= src.byte() & (END_HEADERS | PADDED | PRIORITY);
    }
    if src.chance(1, 4) {
        r.id |= 1 << 31;
    }
    r
}
fn settings_roundtrip(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut dec = Decoder::new();
    if src.chance(1, 30) {
        ctx.class("acknowledgement");
        let (mut buf, prefix) = out_buf(src);
        let n = Settings::ack().encode(&mut buf).map_err(|e| format!("{:?}", e))?;
        let b = appended("SETTINGS ack", &buf, &prefix, n)?;
        same!("acknowledgement", split_frames(&b)?, vec![raw(4, ACK, 0, vec![])]);
        let r = other_flags(src, raw(4, ACK, 0, vec![]));
        let g = parse_lib(src, &r, &mut dec, 0)?;
        same!("parsed acknowledgement", g, Got::Settings(Settings::ack()));
        return Ok(());
    }
    // a list with repeats and unknown ids
    let mut l: Vec<(u16, u32)> = src.list(12, 4, legal_setting);
    for _ in 0..src.stretch(100, 10) {
        l.push(legal_setting(src));
    }
    let mut m = Set::new();
    for (k, v) in &l {
        if matches!(k, 1..=6 | 8) {
            m.insert(*k, *v);
        }
    }
    ctx.input("list", &l);
    ctx.nontrivial(m.len() > 1);
    ctx.class_if(m.len() < l.len(), "repeated or unknown");
    let p = settings_wire(&l);
    let mut s = match src.upto(2) {
        0 => {
            let r = other_flags(src, raw(4, 0, 0, p.clone()));
            match parse_lib(src, &r, &mut dec, 0).map_err(|e| format!("{:?} refused: {}", l, e))? {
                Got::Settings(s) => s,
                g => return Err(format!("SETTINGS parse as {:?}", g)),
            }
        }
        1 => Settings::default().parse_http_settings(&base64url(&p)).map_err(|e| format!("HTTP2-Settings {:?} refused: {:?}", l, e))?,
        _ => {
            ctx.class("built with setters");
            let mut s = Settings::default();
            m.remove(&1);
            for (k, v) in &l {
                match k {
                    2 => s.set_enable_push(*v == 1),
                    3 => s.set_max_concurrent_streams(Some(*v)),
                    4 => s.set_initial_window_size(Some(*v)),
                    5 => s.set_max_frame_size(Some(*v)),
                    6 => s.set_max_header_list_size(Some(*v)),
                    8 => s.set_enable_connect_protocol(Some(*v)),
                    _ => {}
                }
            }
            s
        }
    };
    // setters on top of whatever was there
    let over = src.list(4, 1, |src| {
        let (k, v) = legal_setting(src);
        (k, if src.chance(1, 3) { None } else { Some(v) })
    });
    ctx.input("setters", &over);
    for (k, v) in over {
        match (k, v) {
            (2, Some(v)) => s.set_enable_push(v == 1),
            (3, _) => s.set_max_concurrent_streams(v),
            (4, _) => s.set_initial_window_size(v),
            (5, _) => s.set_max_frame_size(v),
            (6, _) => s.set_max_header_list_size(v),
            (8, _) => s.set_enable_connect_protocol(v),
            _ => continue,
        }
        ctx.class(if v.is_some() { "changed by a setter" } else { "cleared by a setter" });
        match v {
            Some(v) => m.insert(k, v),
            None => m.remove(&k),
        };
    }
    settings_check(&s, &m)?;
    let (mut buf, prefix) = out_buf(src);
    let n = if src.bool() { s.encode(&mut buf) } else { Frame::Settings(s.clone()).encode(&mut buf, &mut Encoder::new()) }
        .map_err(|e| format!("{:?}", e))?;
    let b = appended("SETTINGS", &buf, &prefix, n)?;
    let f = split_frames(&b)?;
    ensure!(f.len() == 1 && f[0].kind == 4 && f[0].flags == 0 && f[0].id == 0, "SETTINGS encode to {:?}", f);
    same!("encoded settings", records(&f[0].payload)?, m);
    same!("payload_len", s.payload_len(), f[0].payload.len());
    let g = parse_lib(src, &f[0], &mut dec, 0)?;
    same!("settings parsed back", g, Got::Settings(s.clone()));
    let h = s.encode_http_settings();
    ensure!(h == base64url(&f[0].payload), "HTTP2-Settings is {:?}, expected {:?}", h, base64url(&f[0].payload));
    let base = if src.bool() { Settings::default() } else { s.clone() };
    same!("HTTP2-Settings parsed back", base.parse_http_settings(&h).map_err(|e| format!("{:?}", e))?, s);
    // as the upgrade request carries it
    let r = Request::builder().url("http://a/").upgrade_http2(s.clone()).body(()).map_err(|e| format!("{:?}", e))?;
    same!("HTTP2-Settings header", r.headers().get_str_value(&"HTTP2-Settings"), Some(h));
    Ok(())
}

fn settings_illegal(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut l: Vec<(u16, u32)> = src.list(5, 2, legal_setting);
    let bad = match src.upto(3) {
        0 => (2u16, src.scaled(32).max(2) as u32),
        1 => (8, src.scaled(32).max(2) as u32),
        2 => (
            4,
            match src.upto(3) {
                0 => 1u32 << 31,
                1 => (1u32 << 31) + 1,
                2 => u32::MAX,
                _ => (1u32 << 31) + src.upto(U31 as u64) as u32,
            },
        ),
        _ => (
            5,
            match src.upto(4) {
                0 => 16383,
                1 => 1 << 24,
                4 => *src.pick(&[0u32, u32::MAX, 1 << 31, 1]),
                2 => src.upto(16383) as u32,
                _ => src.range(1 << 24, u32::MAX as u64) as u32,
            },
        ),
    };
    let k = src.below(l.len() + 1);
    l.insert(k, bad);
    ctx.input("list", &l);
    ctx.class(match bad.0 {
        2 => "ENABLE_PUSH",
        8 => "CONNECT protocol",
        4 => "initial window",
        _ => "frame size",
    });
    ctx.nontrivial(true);
    let p = settings_wire(&l);
    let mut dec = Decoder::new();
    ensure!(parse_lib(src, &raw(4, 0, 0, p.clone()), &mut dec, 0).is_err(), "illegal setting {:?} accepted in a frame", bad);
    ensure!(Settings::default().parse_http_settings(&base64url(&p)).is_err(), "illegal setting {:?} accepted in HTTP2-Settings", bad);
    // the same list without it is fine
    l.remove(k);
    let p = settings_wire(&l);
    parse_lib(src, &raw(4, 0, 0, p), &mut dec, 0).map_err(|e| format!("{:?} refused: {}", l, e))?;
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "settings lists with boundary and random values, repeats and unknown identifiers, decoded from a frame, from an HTTP2-Settings value (own base64url) or set through setters; encoded and compared with the RFC layout; lists with one illegal value. Non-trivial: at least two settings, or an illegal value.",
        assumptions: &["the order of settings inside the frame is free"],
        subs: vec![
            sub("roundtrip", Run::Random(40_000), settings_roundtrip),
            sub("illegal", Run::Random(30_000), settings_illegal),
        ],
    }
}

// ------------------------------------------------------------------ C31
/// Removes the padding and priority of a frame as RFC 7540 says.
fn strip(r: &Raw) -> Result<(u8, Vec<u8>), String> {
    let mut p = r.payload.clone();
    if r.flags & PADDED != 0 {
        ensure!(!p.is_empty(), "padded frame without a pad length");
        let n = p.remove(0) as usize;
        ensure!(n <= p.len(), "padding of {} in {} bytes", n, p.len());
        p.truncate(p.len() - n);
    }
    if r.kind == 1 && r.flags & PRIORITY != 0 {
        ensure!(p.len() >= 5, "no room for the priority field");
        p.drain(..5);
    }
    Ok((r.flags & !(PADDED | PRIORITY), p))
}

fn padding(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut dec = Decoder::new();
    let mut table = Table::new();
    let mut enc = Encoder::new();
    let mut peer = Table::new();
    for round in 0..src.range(1, 4) {
        let id = sid(src);
        let npad = match src.upto(3) {
            0 => src.size(255),
            1 => 255,
            2 => src.range(1, 8) as usize,
            _ => 0,
        };
        let padbytes = if src.chance(2, 3) { vec![0u8; npad] } else { src.bulk(npad) };
        let padded = src.chance(3, 4);
        let kind = *src.pick(&[0u8, 1, 1, 5, 5]);
        let pseudo = pseudos(src, false);
        let fields = regular(src, 5, false);
        let mut flags = if padded { PADDED } else { 0 };
        let end = src.bool();
        let mut payload = Vec::new();
        let want;
        let data = src.payload(300);
        let promised = sid(src);
        match kind {
            0 => {
                payload.extend_from_slice(&data);
                flags |= if end { END_STREAM } else { 0 };
                want = Got::Data { id, end, data: data.clone() };
            }
            1 => {
                flags |= END_HEADERS | if end { END_STREAM } else { 0 };
                if src.bool() {
                    flags |= PRIORITY;
                    payload.extend_from_slice(&dependency(src, id));
                    ctx.class("priority field");
                }
                payload.extend_from_slice(&ref_block(src, &mut table, &pseudo, &fields));
                want = Got::Headers { id, end_stream: end, end_headers: true, pseudo: pseudo.clone(), fields: fields.clone() };
            }
            _ => {
                flags |= END_HEADERS;
                payload.extend_from_slice(&(promised | (src.bool() as u32) << 31).to_be_bytes());
                payload.extend_from_slice(&ref_block(src, &mut table, &pseudo, &fields));
                want = Got::Push { id, promised, pseudo: pseudo.clone(), fields: fields.clone() };
            }
        }
        if padded {
            payload.insert(0, npad as u8);
            payload.extend_from_slice(&padbytes);
            ctx.class(match kind {
                0 => "padded DATA",
                1 => "padded HEADERS",
                _ => "padded PUSH_PROMISE",
            });
        }
        // flags without a meaning for this type of frame
        let stray = match kind {
            0 if src.chance(1, 4) => *src.pick(&[END_HEADERS, PRIORITY, END_HEADERS | PRIORITY]),
            5 if src.chance(1, 4) => *src.pick(&[END_STREAM, PRIORITY, END_STREAM | PRIORITY]),
            _ => 0,
        };
        ctx.class_if(stray != 0, "flags without a meaning");
        let r = raw(kind, flags | stray, id, payload);
        ctx.input("frame", &r);
        ctx.input("content", &want);
        ctx.nontrivial(padded || flags & PRIORITY != 0);
        let before = dec.index.read().unwrap().to_vec();
        let got = parse_lib(src, &r, &mut dec, 1 << 20).map_err(|e| format!("frame {}: {:?} refused: {}", round, r, e))?;
        let mut leaked = false;
        if got != want {
            match (&got, kind) {
                (Got::Data { id: gi, end: ge, data: gd }, 0)
                    if *gi == id && *ge == end && padded && npad > 0 && *gd == [&data[..], &padbytes[..]].concat() =>
                {
                    leaked = true;
                    ctx.known(
                        "data-trailing-padding",
                        format!("a DATA frame padded with {} octets yields its payload followed by the padding ({:?})", npad, r),
                    );
                }
                _ => return Err(format!("frame {}: {:?} parses as {:?}, expected {:?}", round, r, got, want)),
            }
        }
        // encode what was parsed (from the same compression state)
        let fresh = Decoder::new();
        for (n, v) in before.iter().rev() {
            fresh.index.write().unwrap().add_header(n.clone(), v.clone());
        }
        let mut fresh = fresh;
        let mut b = Binary::from(r.bytes());
        let h = FrameHeader::parse(&mut b).map_err(|e| format!("{:?}", e))?;
        let f = Frame::parse(h, b, &mut fresh, 1 << 20).map_err(|e| format!("second parse: {:?}", e))?;
        let (mut buf, prefix) = out_buf(src);
        let n = f.encode(&mut buf, &mut enc).map_err(|e| format!("re-encoding: {:?}", e))?;
        let bytes = appended("re-encoding", &buf, &prefix, n)?;
        let frames = split_frames(&bytes).map_err(|e| format!("re-encoding of {:?}: {}", r, e))?;
        let (mut p2, mut f2) = (Vec::new(), Vec::new());
        let mut whole_frames: Vec<(Raw, u8, Vec<u8>)> = Vec::new();
        for fr in &frames {
            let (fl, content) = strip(fr).map_err(|e| format!("re-encoding of {:?} gives a malformed frame: {}", r, e))?;
            match whole_frames.last_mut() {
                Some((first, flags, block)) if fr.kind == 9 && first.kind != 0 && *flags & END_HEADERS == 0 => {
                    same!("stream of a re-encoded CONTINUATION", fr.id, first.id);
                    ensure!(fl & !END_HEADERS == 0, "re-encoded CONTINUATION carries flags {}", fl);
                    *flags |= fl;
                    block.extend_from_slice(&content);
                    ctx.class("re-encoded with CONTINUATION");
                }
                _ => whole_frames.push((fr.clone(), fl, content)),
            }
        }
        for (i, (fr, fl, content)) in whole_frames.into_iter().enumerate() {
            match (kind, fr.kind, i) {
                (0, 0, 0) => {
                    ensure!(frames.len() == 1, "re-encoding gives {} frames", frames.len());
                    same!("re-encoded flags", fl & !stray, if end { END_STREAM } else { 0 });
                    let whole = if leaked { [&data[..], &padbytes[..]].concat() } else { data.clone() };
                    ensure!(content == whole, "frame {}: {:?} re-encoded carries \"{}\"", round, r, show(&content));
                }
                (1, 1, 0) | (5, 5, 0) | (5, 1, 1) => {
                    let mut content = content;
                    let mut want = END_HEADERS;
                    if fr.kind == 1 && end && kind == 1 {
                        want |= END_STREAM;
                    }
                    same!("re-encoded flags", fl & !stray, want);
                    if fr.kind == 5 {
                        ensure!(content.len() >= 4, "re-encoded push without a promised stream");
                        same!("re-encoded promised stream", content[..4].to_vec(), promised.to_be_bytes().to_vec());
                        content.drain(..4);
                    }
                    let on = if kind == 5 && fr.kind == 1 { promised } else { id };
                    same!("re-encoded stream", fr.id, on);
                    let l = href::decode(&mut peer, &content).ok_or_else(|| format!("re-encoded block {:02x?} is malformed", content))?;
                    let (p, f) = split_pseudo(&l)?;
                    p2.extend(p);
                    f2.extend(f);
                }
                _ => return Err(format!("re-encoding of {:?} gives {:?}", r, frames)),
            }
        }
        if kind != 0 {
            p2.sort();
            ensure!(p2 == pseudo && f2 == fields, "re-encoded content {:?} {}, expected {:?} {}", p2, fields_text(&f2), pseudo, fields_text(&fields));
        }
    }
    Ok(())
}

pub fn c31() -> Prop {
    Prop {
        id: "C31",
        rule: "1-4 DATA, HEADERS and PUSH_PROMISE frames on one connection with 0-255 octets of zero or arbitrary padding, flags without a meaning and optional priority fields, header blocks from the reference encoder; parsed content compared with what was sent, then re-encoded and taken apart again. Non-trivial: padded or with a priority field.",
        assumptions: &["field names distinct"],
        subs: vec![sub("padding", Run::Random(12_000), padding)],
    }
}

// ------------------------------------------------------------------ C32
fn build_headers(src: &mut Src, pseudo: &[(String, String)], fields: &[Field], id: u32) -> Result<Headers, String> {
    if src.bool() {
        // received
        let mut t = Table::new();
        let b = ref_block(src, &mut t, pseudo, fields);
        let r = raw(1, END_HEADERS, id, b);
        let mut v = Binary::from(r.bytes());
        let h = FrameHeader::parse(&mut v).map_err(|e| format!("{:?}", e))?;
        match Frame::parse(h, v, &mut Decoder::new(), 1 << 20).map_err(|e| format!("HEADERS refused: {:?}", e))? {
            Frame::Headers(h) => Ok(h),
            _ => Err("HEADERS parse as another frame".into()),
        }
    } else {
        let mut map = HeaderMap::new();
        for (n, v) in fields {
            map.insert(mk_name(src, std::str::from_utf8(n).unwrap()), mk_value(src, v));
        }
        let mut f = Headers::new(FrameHeader::new(Kind::Headers, Flag::end_headers(), StreamIdentifier(id)), map);
        for (n, v) in pseudo {
            match n.as_str() {
                ":method" => f.set_method(Method::try_from(v.as_str()).map_err(|e| format!("{:?}", e))?),
                ":scheme" => f.set_scheme(Scheme::try_from(v.as_str()).map_err(|e| format!("{:?}", e))?),
                ":authority" => f.set_authority(v.clone()),
                ":path" => f.set_path(v.clone()),
                _ => f.set_status(StatusCode::try_from(v.as_str()).map_err(|e| format!("{:?}", e))?),
            }
        }
        Ok(f)
    }
}

fn to_request(src: &mut Src, ctx: &mut Ctx) -> R {
    let (s, h) = (*src.pick(&["http", "https", "ws", "wss", "ftp", "coap", "git+ssh"]), host(src));
    let p = if src.bool() { Some(port(src)) } else { None };
    let with_path = src.chance(4, 5);
    let empty_path = with_path && src.chance(1, 20);
    let path = if empty_path { String::new() } else { text(src, 12) };
    let query = if with_path && !empty_path && src.bool() { Some(text(src, 12)) } else { None };
    let with_scheme = src.chance(5, 6);
    let m = src.pick(methods()).to_string();
    let with_authority = src.chance(7, 8);
    let fields: Vec<Field> = regular(src, 8, false);
    let mut pseudo = vec![(":method".to_string(), m.clone())];
    if with_scheme {
        pseudo.push((":scheme".into(), s.to_string()));
    }
    if with_authority {
        pseudo.push((":authority".into(), match p {
            Some(p) => format!("{}:{}", h, p),
            None => h.clone(),
        }));
    }
    if with_path {
        let mut x = format!("/{}", pct(src, path.as_bytes(), path_char));
        if let Some(q) = &query {
            x.push('?');
            x.push_str(&pct(src, q.as_bytes(), query_char));
        }
        if empty_path {
            ctx.class("empty path");
            x.clear();
        }
        pseudo.push((":path".into(), x));
    }
    ctx.input("pseudo", &pseudo);
    ctx.input("fields", &fields_text(&fields));
    ctx.nontrivial(with_authority);
    ctx.class_if(!with_authority, "no authority");
    ctx.class_if(!with_path, "no path");
    ctx.class_if(query.is_some(), "query");
    let id = sid(src);
    let f = build_headers(src, &pseudo, &fields, id)?;
    let r = f.into_request(Request::builder()).and_then(|b| b.body(()));
    if !with_authority {
        ensure!(r.is_err(), "a request without authority became {:?}", r.map(|x| x.url().clone()));
        return Ok(());
    }
    let r = r.map_err(|e| format!("conversion refused: {:?}", e))?;
    same!("method", r.method().as_str(), &m[..]);
    let want_scheme = if with_scheme { s } else { "http" };
    same!("scheme", r.url().get_scheme(), want_scheme);
    same!("host", r.url().domain, Some(h.clone()));
    let default = match want_scheme {
        "http" | "ws" => 80,
        "https" | "wss" => 443,
        "ftp" => 21,
        _ => 0,
    };
    same!("port", r.url().port, Some(p.unwrap_or(default)));
    same!("path", r.url().path, if with_path { format!("/{}", path) } else { "/".to_string() });
    same!("query", r.url().query, query);
    check_fields(&map_fields(r.headers()), &fields, &request_extras())?;
    // sending that URL on gives the same request again
    let u = r.url();
    let mut g = Headers::new(FrameHeader::new(Kind::Headers, Flag::end_headers(), StreamIdentifier(id)), HeaderMap::new());
    g.set_method(r.method().clone());
    g.set_scheme(u.scheme.clone());
    g.set_authority(u.get_authority());
    let mut x = format!("/{}", pct(src, &u.path.as_bytes()[1..], path_char));
    if let Some(q) = &u.query {
        x.push('?');
        x.push_str(&pct(src, q.as_bytes(), query_char));
    }
    g.set_path(x);
    let r2 = g.into_request(Request::builder()).and_then(|b| b.body(())).map_err(|e| format!("{:?}", e))?;
    same!("URL sent on", r2.url(), u);
    same!("method sent on", r2.method(), r.method());
    Ok(())
}
/// Every regular field is there, in order; a Host field derived from the URL and
/// the fields a builder adds to every message may be there, too.
fn check_fields(got: &[Field], want: &[Field], builder: &[Field]) -> R {
    let extra = |n: &[u8]| n == b"host" || builder.iter().any(|(a, _)| a == n);
    for (n, v) in want {
        ensure!(got.iter().any(|(a, b)| a == n && b == v), "field {}={} is missing from {}", show(n), show(v), fields_text(got));
    }
    for (n, _) in got {
        ensure!(extra(n) || want.iter().any(|(a, _)| a == n), "field {} appeared", show(n));
    }
    let order: Vec<&Field> = got.iter().filter(|f| !extra(&f.0)).collect();
    let w: Vec<&Field> = want.iter().filter(|f| !extra(&f.0)).collect();
    ensure!(order == w, "fields in another order: {}", fields_text(got));
    Ok(())
}
fn request_extras() -> Vec<Field> {
    Request::builder().body(()).map(|r| map_fields(r.headers())).unwrap_or_default()
}
fn response_extras() -> Vec<Field> {
    Response::builder().body(()).map(|r| map_fields(r.headers())).unwrap_or_default()
}

/// Neither an odd path nor an odd authority yields a URL of another host.
fn url_confusion(src: &mut Src, ctx: &mut Ctx) -> R {
    let piece = |src: &mut Src| match src.upto(8) {
        0 => "/".to_string(),
        1 => "?".to_string(),
        2 => ".evil.com".to_string(),
        3 => "@evil.com".to_string(),
        4 => ":81".to_string(),
        5 => "*".to_string(),
        6 => host(src),
        7 => "%2f".to_string(),
        _ => String::from_utf8(src.list(1, 4, |s| *s.pick(b"ab/?@:.*&=")))
            .unwrap_or_default(),
    };
    let mut authority = host(src);
    if src.chance(1, 3) {
        authority.push_str(&piece(src));
    }
    let n = src.range(1, 4);
    let mut path = String::new();
    for _ in 0..n {
        path.push_str(&piece(src));
    }
    ctx.input("authority", &authority);
    ctx.input("path", &path);
    let s = *src.pick(&["http", "https", "ws"]);
    let id = sid(src);
    let mut convert = |path: &str| {
        let l = [(":method", "GET"), (":scheme", s), (":authority", &authority[..]), (":path", path)].map(|x| (x.0.to_string(), x.1.to_string()));
        let f = build_headers(src, &l, &[], id)?;
        Ok::<_, String>(f.into_request(Request::builder()).and_then(|b| b.body(())).map(|r| r.url().clone()))
    };
    let plain = convert("/")?;
    let got = convert(&path)?;
    let mixed = !path.is_empty() && !path.starts_with('/') || authority.contains(['/', '?']);
    ctx.nontrivial(mixed);
    ctx.class_if(mixed, "path or authority runs into the other");
    ctx.class_if(got.is_ok(), "accepted");
    if mixed {
        ensure!(got.is_err(), "authority {:?} and path {:?} became {:?}", authority, path, got.unwrap());
    }
    if let Ok(u) = got {
        let p = plain.map_err(|e| format!("accepted with path {:?} but not with \"/\": {:?}", path, e))?;
        same!("host", u.domain, p.domain);
        same!("port", u.port, p.port);
        same!("user", (u.username, u.password), (p.username, p.password));
        same!("scheme", u.scheme, p.scheme);
        ensure!(u.path.starts_with('/'), "path {:?}", u.path);
    }
    Ok(())
}

fn to_response(src: &mut Src, ctx: &mut Ctx) -> R {
    let code = match src.upto(1) {
        0 => *src.pick(&[200u16, 204, 301, 404, 500, 100]),
        _ => src.range(100, 999) as u16,
    };
    let fields = regular(src, 8, false);
    ctx.input("status", &code);
    ctx.input("fields", &fields_text(&fields));
    ctx.nontrivial(true);
    let id = sid(src);
    let method = src.chance(1, 4).then(|| *src.pick(&["GET", "HEAD", "PUT", "CONNECT"]));
    let mut pseudo = vec![(":status".to_string(), code.to_string())];
    pseudo.extend(method.map(|m| (":method".to_string(), m.to_string())));
    let f = build_headers(src, &pseudo, &fields, id)?;
    same!("is_informational", f.is_informational(), (100..200).contains(&code));
    let r: Response<()> =
        f.into_response(Response::builder()).and_then(|b| b.body(())).map_err(|e| format!("conversion refused: {:?}", e))?;
    same!("status", r.status().as_u16(), code);
    let mut got = map_fields(r.headers());
    let (own, rest): (Vec<_>, Vec<_>) = got.drain(..).partition(|(n, _)| n == b":method");
    same!("method of the response", own.into_iter().map(|x| show(&x.1)).collect::<Vec<_>>(), method.into_iter().map(|m| m.to_string()).collect::<Vec<_>>());
    check_fields(&rest, &fields, &response_extras())
}

pub fn c32() -> Prop {
    Prop {
        id: "C32",
        rule: "HEADERS frames received from the wire or built through setters, with random method, scheme, authority (host, optional port), percent-encoded Unicode path and query, and regular fields; converted and compared component by component; authority, scheme or path left out; paths and authorities assembled from delimiters, hosts and ports (the host may never depend on the path); statuses 100-999, some with a method beside the status. Non-trivial: an authority or a status is present, or path and authority would run into each other.",
        assumptions: &["in to_request the authority is a plain host with an optional port"],
        subs: vec![sub("to_request", Run::Random(30_000), to_request), sub("url_confusion", Run::Random(20_000), url_confusion), sub("to_response", Run::Random(20_000), to_response)],
    }
}

// ------------------------------------------------------------------ C05
fn use_frame(f: Frame<Binary>, enc: &mut Encoder) {
    let _ = (f.display_name(), f.stream_id(), f.flags(), f.is_header(), f.is_data(), f.is_end_headers(), f.is_end_stream());
    let _ = format!("{:?}", f);
    let _ = f.encoded_len();
    let mut out = BinaryMut::new();
    let _ = f.encode(&mut out, enc);
}
fn damaged_payload(src: &mut Src, table: &mut Table, kind: u8) -> Raw {
    let mut r = good_frame(src, table, kind.min(8));
    match src.upto(3) {
        0 => {}
        1 => mutate(src, &mut r.payload),
        2 => r.payload = src.bytes(64),
        _ => {
            let n = src.below(r.payload.len() + 1);
            r.payload.truncate(n);
        }
    }
    r.kind = kind;
    if src.chance(1, 3) {
        r.flags ^= *src.pick(&[1u8, 4, 8, 0x20, 0x28]);
    }
    if src.chance(1, 5) {
        r.id = *src.pick(&[0u32, 1, U31, u32::MAX, 1 << 31]);
    }
    r
}

fn raw_frames(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut dec = Decoder::new();
    let mut enc = Encoder::new();
    let mut table = Table::new();
    if src.chance(1, 3) {
        let n = *src.pick(&[0usize, 1, 33, 64, 200, 1 << 16]);
        dec.index.write().unwrap().set_max_table_size(n);
        enc.index.write().unwrap().set_max_table_size(n);
    }
    if src.chance(1, 4) {
        enc.max_frame_size = src.range(1, 300) as usize;
    }
    let frames = src.range(1, 8);
    for _ in 0..frames {
        let kind = if src.chance(9, 10) { src.upto(9) as u8 } else { src.byte() };
        let r = damaged_payload(src, &mut table, kind);
        let mut b = r.bytes();
        if src.chance(1, 6) {
            // the header and the payload disagree
            let k = src.below(9);
            b[k] = src.byte();
        }
        ctx.bytes("frame", &b);
        ctx.class(match r.kind {
            0 => "DATA",
            1 => "HEADERS",
            2 => "PRIORITY",
            3 => "RST_STREAM",
            4 => "SETTINGS",
            5 => "PUSH_PROMISE",
            6 => "PING",
            7 => "GOAWAY",
            8 => "WINDOW_UPDATE",
            _ => "CONTINUATION or unknown",
        });
        let max = *src.pick(&[1usize << 20, 16384, 0, 50]);
        let n = b.len();
        // a table entry of up to 65536 octets may be referenced by every octet
        let parsed = bounded(n * 20, "parsing a frame", || {
            if src.bool() {
                let mut m = Metered::new(&b);
                m.limit += 4096;
                let h = FrameHeader::parse(&mut m).map_err(told).ok()?;
                let f = Frame::parse(h, m, &mut dec, max).map_err(told).ok()?;
                let g = describe(f);
                let _ = format!("{:?}", g);
                None
            } else {
                let mut v = Binary::from(b.clone());
                let h = FrameHeader::parse(&mut v).ok()?;
                Frame::parse(h, v, &mut dec, max).map_err(told).ok()
            }
        })?;
        if let Some(f) = parsed {
            ctx.class("accepted and re-encoded");
            ctx.nontrivial(true);
            use_frame(f, &mut enc);
        }
    }
    Ok(())
}

fn raw_blocks(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut dec = Decoder::new();
    let mut table = Table::new();
    if src.chance(1, 3) {
        dec.index.write().unwrap().set_max_table_size(*src.pick(&[0usize, 1, 33, 64, 200, 1 << 16]));
    }
    for _ in 0..src.range(1, 5) {
        let p = pseudos(src, false);
        let f = regular(src, 6, false);
        let mut b = ref_block(src, &mut table, &p, &f);
        match src.upto(4) {
            0 => {}
            1 | 2 => mutate(src, &mut b),
            3 => b = src.bytes(40),
            _ => {
                // integers
                let first = *src.pick(&[0x80u8, 0x40, 0x20, 0x10, 0x00]);
                let mask = match first {
                    0x80 => 0x7f,
                    0x40 => 0x3f,
                    0x20 => 0x1f,
                    _ => 0x0f,
                };
                b.push(first | mask);
                for _ in 0..src.upto(12) {
                    b.push(if src.chance(2, 3) { 0xff } else { src.byte() });
                }
            }
        }
        ctx.bytes("block", &b);
        ctx.nontrivial(!b.is_empty());
        let r = bounded(b.len() * 20, "decoding a header block", || {
            let mut m = Metered::new(&b);
            dec.decode(&mut m).map_err(told).map(|l| l.len()).ok()
        })?;
        ctx.class(if r.is_some() { "accepted" } else { "refused" });
        let i = dec.index.read().unwrap();
        let _ = (i.len(), i.get_size(), i.get_from_index(src.upto(200) as usize).is_some());
        ensure!(i.get_size() <= i.get_max_table_size(), "table of {} octets, maximum {}", i.get_size(), i.get_max_table_size());
    }
    Ok(())
}

fn raw_small(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.upto(2) {
        0 => {
            let b = if src.bool() { src.bytes(60) } else { src.payload(2000) };
            ctx.class("Huffman");
            ctx.bytes("huffman", &b);
            ctx.nontrivial(b.len() > 1);
            bounded(b.len(), "Huffman decoding", || HuffmanDecoder::new().decode(&b).is_ok())?;
        }
        1 => {
            ctx.class("HTTP2-Settings");
            let s = match src.upto(2) {
                0 => {
                    let n = src.size(60);
                    (0..n).map(|_| *src.pick(B64) as char).collect::<String>()
                }
                1 => text(src, 60),
                _ => {
                    let mut v = base64url(&src.bytes(40)).into_bytes();
                    mutate(src, &mut v);
                    String::from_utf8_lossy(&v).into_owned()
                }
            };
            ctx.input("value", &s);
            ctx.nontrivial(!s.is_empty());
            bounded(s.len(), "HTTP2-Settings", || Settings::default().parse_http_settings(&s).map_err(told).map(|x| x.encode_http_settings()).is_ok())?;
        }
        _ => {
            ctx.class("frame header");
            let b = src.bytes(14);
            ctx.bytes("header", &b);
            ctx.nontrivial(b.len() >= 9);
            let mut m = Metered::new(&b);
            if let Ok(h) = FrameHeader::parse(&mut m) {
                ensure!(b.len() >= 9, "a frame header from {} bytes", b.len());
                same!("bytes left", m.data.len(), b.len() - 9);
                let _ = h.encode(&mut BinaryMut::new());
            }
        }
    }
    Ok(())
}

/// Four times the input costs about four times the memory.
fn growth(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = src.range(40, 200) as usize;
    let shape = src.upto(7);
    let lit = *src.pick(&[0x40u8, 0x00, 0x10]);
    let limit = *src.pick(&[16384usize, 1 << 20, 40]);
    let field = move |i: usize| {
        let n = format!("name-{}", i % 3000);
        let v = format!("value {}", i);
        let mut b = vec![lit, n.len() as u8];
        b.extend_from_slice(n.as_bytes());
        b.push(v.len() as u8);
        b.extend_from_slice(v.as_bytes());
        b
    };
    let make = |k: usize| -> Vec<u8> {
        let (kind, flags, id, payload): (u8, u8, u32, Vec<u8>) = match shape {
            0 => (1, 4, 1, (0..k).flat_map(field).collect()),
            1 => (1, 4, 1, field(0).into_iter().chain((0..10 * k).map(|i| if lit == 0x40 { 0xbe } else { 0x82 + (i % 40) as u8 })).collect()),
            2 => (0, 1, 1, vec![b'd'; 20 * k]),
            3 => (4, 0, 0, (0..k).flat_map(|i| [0, 1 + (i % 6) as u8, 0, 0, 0x40 * (i % 6 == 4) as u8, (i % 6 != 4) as u8]).collect()),
            4 => (7, 0, 0, vec![1u8; 8 + 20 * k]),
            5 => (5, 4, 1, [0, 0, 0, 2].into_iter().chain((0..k).flat_map(field)).collect()),
            6 => (9, 4, 1, (0..k).flat_map(field).collect()),
            _ => {
                let mut b = vec![lit, 1, b'x', 0x7f];
                let mut n = 20 * k - 127;
                while n >= 128 {
                    b.push(128 | (n % 128) as u8);
                    n /= 128;
                }
                b.push(n as u8);
                b.extend(vec![b'v'; 20 * k]);
                (1, 4, 1, b)
            }
        };
        Raw { kind, flags, id, payload }.bytes()
    };
    ctx.class(["literals", "indexed", "DATA", "SETTINGS", "GOAWAY", "PUSH_PROMISE", "CONTINUATION", "long value"][shape as usize]);
    ctx.nontrivial(true);
    linear("frame", ctx, k, make, |b| {
        let mut v = Binary::from(b.to_vec());
        let mut dec = Decoder::new();
        let mut enc = Encoder::new();
        enc.max_frame_size = limit;
        if let Some(f) = FrameHeader::parse(&mut v).ok().and_then(|h| Frame::parse(h, v, &mut dec, 1 << 24).ok()) {
            use_frame(f, &mut enc);
        }
    })
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "sequences of 1-8 frames on one connection, well-formed, damaged, truncated, random, with flipped flags, hostile stream ids or headers that disagree with the payload; header blocks with damage and oversized integers; Huffman strings, HTTP2-Settings values and frame headers of arbitrary bytes. Accesses and allocations are metered, panics caught, accepted frames re-encoded. Non-trivial: a frame was accepted, or the input is not empty.",
        assumptions: &["the buffer holds the frame's payload; the encoder's frame limit is at least 1"],
        subs: vec![
            sub("raw_frames", Run::Random(40_000), raw_frames),
            sub("raw_blocks", Run::Random(40_000), raw_blocks),
            sub("raw_small", Run::Random(60_000), raw_small),
            sub("growth", Run::Random(1_500), growth),
        ],
    }
}
