//! C43 C44 C45: several messages on one connection.
use super::gen::*;
use super::h2::{self, Got, Raw};
use super::http1::{chunk_data, empty_lines, method_of, version_of};
use super::hpack_ref::Field;
use super::ws;
use crate::engine::{show, sub, Ctx, Kind as Run, Prop, Src, R};
use crate::{ensure, same};
use algorithm::buf::{Binary, BinaryMut, BinaryRef, Bt};
use std::sync::{Arc, RwLock};
use webparse::http2::encoder::Encoder;
use webparse::http2::frame::*;
use webparse::http2::{Decoder, HeaderIndex};
use webparse::ws::{DataFrame, DataFrameable, Opcode, OwnedMessage};
use webparse::{HeaderMap, Helper, HttpError, Request, Response, StatusCode, WebError};

/// Where the bytes received so far end after each arrival; the last is `n`.
fn arrivals(src: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = match src.upto(3) {
        _ if n > 100_000 => {
            let mut v: Vec<usize> = src.list(4, 2, |s| s.upto(n as u64) as usize);
            v.sort();
            v
        }
        0 => Vec::new(),
        1 if n <= 400 => (0..n).collect(),
        2 => {
            let step = src.range(1, 40) as usize;
            (0..n).step_by(step.max(n / 100)).collect()
        }
        _ => {
            let mut v: Vec<usize> = src.list(12, 4, |s| s.upto(n as u64) as usize);
            v.sort();
            v
        }
    };
    v.push(n);
    v
}

// ------------------------------------------------------------------ C43
#[derive(Debug, Clone, PartialEq)]
enum Body {
    None,
    Sized(Vec<u8>),
    Chunks(Vec<Vec<u8>>),
}
struct Sent {
    start: String,
    headers: Vec<(String, Vec<u8>)>,
    body: Body,
    /// Ends of the head, of each chunk or of the body.
    ends: Vec<usize>,
}
fn put(out: &mut BinaryMut, b: &[u8]) {
    out.put_slice(b);
}
fn send(src: &mut Src, out: &mut BinaryMut, request: bool) -> Result<Sent, String> {
    let e = |x: WebError| format!("serialising: {:?}", x);
    let body = match src.upto(3) {
        0 => Body::None,
        1 => Body::Chunks(src.list(5, 2, chunk_data).into_iter().filter(|c| !c.is_empty()).collect()),
        _ => Body::Sized(chunk_data(src)),
    };
    let most = *src.pick(&[0usize, 5, 5, 14]);
    let mut list = headers(src, most, &["host", "content-length", "transfer-encoding"]);
    let own = match &body {
        Body::None if src.bool() => Some(("content-length", b"0".to_vec())),
        Body::None => None,
        Body::Sized(b) => Some(("content-length", b.len().to_string().into_bytes())),
        Body::Chunks(_) => Some(("transfer-encoding", b"chunked".to_vec())),
    };
    if let Some((n, v)) = own {
        let n = recase(src, n);
        let at = src.below(list.len() + 1);
        list.insert(at, (n, v));
    }
    let version = *src.pick(&["HTTP/1.0", "HTTP/1.1"]);
    let start;
    // bare line feeds also end the lines of a head
    let bare = src.chance(1, 4);
    let mut own_buf = BinaryMut::new();
    let real = out;
    let out = if bare { &mut own_buf } else { &mut *real };
    let whole = matches!(body, Body::Sized(_)) && src.bool();
    if request {
        let method = *src.pick(&["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE"]);
        let mut r = Request::new();
        r.set_method(method_of(method));
        r.set_version(version_of(version));
        r.set_path(format!("/{}", text(src, 12)));
        if src.bool() {
            r.url_mut().query = Some(text(src, 12));
        }
        *r.headers_mut() = mk_map(src, &list);
        start = format!("{} {:?} {:?} {}", method, r.path(), r.url().query, version);
        match &body {
            Body::Sized(b) if whole => put(out, &r.into(b.clone()).0.http1_data().map_err(e)?),
            _ => {
                r.encode_header(out).map_err(e)?;
            }
        }
    } else {
        let code = *src.pick(&[100u16, 101, 200, 201, 204, 206, 301, 304, 400, 404, 418, 500, 503]);
        let mut r = Response::new(());
        *r.status_mut() = StatusCode::try_from(&code.to_string()[..]).map_err(|x| format!("{:?}", x))?;
        *r.version_mut() = version_of(version);
        *r.headers_mut() = mk_map(src, &list);
        start = format!("{} {}", version, code);
        match &body {
            Body::Sized(b) if whole => put(out, &r.into(b.clone()).0.httpdata().map_err(e)?),
            _ => {
                r.encode_header(out).map_err(e)?;
            }
        }
    }
    let out = if bare {
        let all = own_buf.into_slice_all();
        let n = all.windows(4).position(|w| w == b"\r\n\r\n").ok_or("a head without an empty line")? + 4;
        let some = src.bool();
        let mut head = Vec::new();
        for l in all[..n].split_inclusive(|b| *b == b'\n') {
            if some && src.bool() {
                head.extend_from_slice(l);
            } else {
                head.extend_from_slice(&l[..l.len() - 2]);
                head.push(b'\n');
            }
        }
        put(real, &head);
        put(real, &all[n..]);
        real
    } else {
        real
    };
    let mut ends = Vec::new();
    match &body {
        Body::None => ends.push(out.remaining()),
        Body::Sized(b) => {
            if !whole {
                put(out, b);
            }
            ends.push(out.remaining() - b.len());
            ends.push(out.remaining());
        }
        Body::Chunks(l) => {
            ends.push(out.remaining());
            for c in l.iter().map(|c| &c[..]).chain([&b""[..]]) {
                Helper::encode_chunk_data(out, c).map_err(|x| format!("chunk: {}", x))?;
                ends.push(out.remaining());
            }
        }
    }
    Ok(Sent { start, headers: list, body, ends })
}
/// What a reader that follows the library's answers has in hand.
enum Stage {
    Head,
    Sized(usize),
    Chunked,
}
fn incomplete(e: &WebError) -> bool {
    matches!(e, WebError::Http(HttpError::Partial)) || e.is_partial()
}
fn pipeline(src: &mut Src, ctx: &mut Ctx) -> R {
    let request = src.bool();
    ctx.class(if request { "requests" } else { "responses" });
    let mut out = BinaryMut::new();
    let mut sent: Vec<Sent> = Vec::new();
    let most = 6 + src.stretch(40, 8);
    while src.more(sent.len(), most, 3) {
        if src.chance(1, 8) {
            // empty lines before a start line are ignored
            put(&mut out, &empty_lines(src));
            ctx.class("empty line before a message");
        }
        let s = send(src, &mut out, request)?;
        ctx.input("message", &(&s.start, show_headers(&s.headers)));
        match &s.body {
            Body::None => {}
            Body::Sized(b) => ctx.bytes("body", b),
            Body::Chunks(l) => ctx.input("chunks", &l.iter().map(|c| show(c)).collect::<Vec<_>>()),
        }
        sent.push(s);
    }
    let wire = out.into_slice_all();
    ctx.nontrivial(sent.len() > 1);
    let kinds = sent.iter().map(|s| std::mem::discriminant(&s.body)).collect::<Vec<_>>();
    ctx.class_if(kinds.iter().any(|k| *k != kinds[0]), "bodies of different kinds");
    let mut at = 0;
    let mut got = 0;
    let mut units = 0; // of the message being read
    let mut stage = Stage::Head;
    let mut chunks: Vec<Vec<u8>> = Vec::new();
    let mut body = Body::None;
    let (mut req, mut res) = (Request::new(), Response::new(()));
    let cuts = arrivals(src, wire.len());
    ctx.class_if(cuts.len() > 1, "in pieces");
    for have in cuts {
        loop {
            let rest = &wire[at..have];
            let due = sent.get(got).map_or(usize::MAX, |s| s.ends[units]);
            let where_ = format!("message {} of {}, part {}, at {} of {} octets received", got, sent.len(), units, at, have);
            let step = match stage {
                Stage::Head => {
                    if src.bool() {
                        req = Request::new();
                        res = Response::new(());
                    }
                    let r = match (request, src.upto(2)) {
                        (true, 0) => req.parse(rest),
                        (true, 1) => req.parse_buffer(&mut BinaryRef::from(rest)),
                        (true, _) => req.parse_buffer(&mut Binary::from(rest.to_vec())),
                        (false, 0) => res.parse(rest),
                        (false, 1) => res.parse_buffer(&mut BinaryRef::from(rest)),
                        (false, _) => res.parse_buffer(&mut Binary::from(rest.to_vec())),
                    };
                    let partial = if request { req.is_partial() } else { res.is_partial() };
                    same!(format!("{}: partial", where_), partial, r.is_err());
                    r
                }
                Stage::Sized(n) if rest.len() >= n => {
                    body = Body::Sized(rest[..n].to_vec());
                    Ok(n)
                }
                Stage::Sized(_) => break,
                Stage::Chunked => {
                    let mut b = BinaryRef::from(rest);
                    Helper::parse_chunk_data(&mut b).map(|(h, n)| {
                        chunks.push(rest[h..h + n].to_vec());
                        h + n + 2
                    })
                }
            };
            let n = match step {
                Ok(n) => n,
                Err(x) => {
                    ensure!(incomplete(&x), "{}: refused: {:?}", where_, x);
                    ensure!(due > have, "{}: reported incomplete, its end is at {}", where_, due);
                    break;
                }
            };
            at += n;
            ensure!(at == due, "{}: ended at {}, not at {}", where_, at, due);
            units += 1;
            let s = &sent[got];
            let mut done = units == s.ends.len();
            if matches!(stage, Stage::Head) {
                let (start, map) = if request {
                    (format!("{} {:?} {:?} {}", req.method().as_str(), req.path(), req.url().query, req.version().as_str()), req.headers())
                } else {
                    (format!("{} {}", res.version().as_str(), res.status().as_u16()), res.headers())
                };
                same!(format!("{}: start line", where_), start, s.start);
                let l = map_list(map);
                ensure!(same_headers(&l, &s.headers), "{}: headers {}, sent {}", where_, show_headers(&l), show_headers(&s.headers));
                let len = if request { req.get_body_len() } else { res.get_body_len() };
                let chunked = map.is_chunked();
                body = Body::None;
                chunks = Vec::new();
                done = false;
                if chunked {
                    stage = Stage::Chunked;
                } else if len > 0 {
                    stage = Stage::Sized(len as usize);
                } else if s.body == Body::Sized(Vec::new()) || s.body == Body::None {
                    body = s.body.clone();
                    done = true;
                } else {
                    return Err(format!("{}: no body announced ({}), one was sent", where_, len));
                }
            } else if matches!(stage, Stage::Chunked) && chunks.last().is_some_and(|c| c.is_empty()) {
                chunks.pop();
                body = Body::Chunks(std::mem::take(&mut chunks));
                ensure!(done, "{}: the last chunk came early", where_);
            }
            if done {
                ensure!(body == s.body, "{}: a different body: {:?}", where_, match &body {
                    Body::Sized(b) => vec![show(b)],
                    Body::Chunks(l) => l.iter().map(|c| show(c)).collect(),
                    Body::None => vec![],
                });
                stage = Stage::Head;
                units = 0;
                got += 1;
            }
        }
    }
    same!("messages read", got, sent.len());
    same!("octets read", at, wire.len());
    Ok(())
}
pub fn c43() -> Prop {
    Prop {
        id: "C43",
        rule: "up to 6 (sometimes some hundred) requests or responses with no body, a sized body or a chunked body, written one behind the other by the library, in a share of them with bare line feeds for the line ends of the head, sometimes with empty lines between; received whole, octet by octet, in steps or at random cuts; a reader that goes by the sizes, lengths and chunk bounds the library reports, through new or reused objects and three buffer types. Non-trivial: more than one message.",
        assumptions: &["Content-Length and Transfer-Encoding are what the reader goes by; methods and statuses that imply no body are not special"],
        subs: vec![
            sub("pipeline", Run::Random(15_000), pipeline),
            sub("large", Run::Random(40), |s, c| {
                s.arm(22);
                pipeline(s, c)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C44
#[derive(Debug)]
enum Event {
    Data { id: u32, end: bool, data: Vec<u8> },
    Block { push: Option<u32>, id: u32, end: bool, pseudo: Vec<(String, String)>, fields: Vec<Field> },
    Single(Raw, Got),
    /// A frame that has to be refused, between two others.
    Refused(Raw),
    /// Both sides change the HPACK table size.
    Table(usize),
}
fn settings(src: &mut Src) -> Settings {
    let mut s = Settings::default();
    if src.bool() {
        s.set_enable_push(src.bool());
    }
    if src.bool() {
        s.set_max_concurrent_streams(Some(src.scaled(32) as u32));
    }
    if src.bool() {
        s.set_initial_window_size(Some(src.scaled(31) as u32));
    }
    if src.bool() {
        s.set_max_frame_size(Some(src.range(16384, (1 << 24) - 1) as u32));
    }
    if src.bool() {
        s.set_max_header_list_size(Some(src.scaled(32) as u32));
    }
    s
}
fn event(src: &mut Src, out: &mut BinaryMut, enc: &mut Encoder, ids: &[u32]) -> Result<(Event, usize), String> {
    let e = |x: WebError| format!("encode: {:?}", x);
    let id = *src.pick(ids);
    Ok(match src.upto(14) {
        0..=3 => {
            let (end, mut data) = (src.chance(1, 3), chunk_data(src));
            data.truncate(enc.max_frame_size.saturating_mul(300));
            let mut d = Data::new(FrameHeader::new(Kind::Data, Flag::zero(), StreamIdentifier(id)), Binary::from(data.clone()));
            d.set_end_stream(end);
            let n = Frame::Data(d).encode(out, enc).map_err(e)?;
            (Event::Data { id, end, data }, n)
        }
        4..=7 => {
            let push = if src.chance(1, 3) { Some(h2::sid(src)) } else { None };
            if push.is_some() {
                enc.max_frame_size = enc.max_frame_size.max(4);
            }
            let mut pseudo = h2::pseudos(src, false);
            if push.is_some() {
                pseudo.retain(|p| p.0 != ":protocol");
            }
            let fields = h2::regular(src, 8, true);
            let end = src.bool();
            let mut map = HeaderMap::new();
            for (n, v) in pseudo.iter() {
                map.insert(mk_name(src, n), mk_value(src, v.as_bytes()));
            }
            for (n, v) in fields.iter() {
                map.insert(mk_name(src, std::str::from_utf8(n).unwrap()), mk_value(src, v));
            }
            let n = match push {
                Some(p) => {
                    let mut f = PushPromise::new(FrameHeader::new(Kind::PushPromise, Flag::zero(), StreamIdentifier(id)), StreamIdentifier(p), map);
                    if end {
                        f.set_end_stream();
                    }
                    Frame::from(f).encode(out, enc).map_err(e)?
                }
                None => {
                    let mut f = Headers::new(FrameHeader::new(Kind::Headers, Flag::zero(), StreamIdentifier(id)), map);
                    if end {
                        f.set_end_stream();
                    }
                    Frame::from(f).encode(out, enc).map_err(e)?
                }
            };
            (Event::Block { push, id, end, pseudo, fields }, n)
        }
        8 => {
            let size = match src.upto(2) {
                0 => 0,
                1 => 4096,
                _ => src.upto(5000) as usize,
            };
            enc.index.write().unwrap().set_max_table_size(size);
            (Event::Table(size), 0)
        }
        9 => {
            let r = match src.upto(5) {
                0 => h2::raw(6, 0, 0, src.bulk(7)),
                1 => h2::raw(8, 0, id, vec![0; 4]),
                2 => h2::raw(4, 0, 0, src.bulk(5)),
                3 => h2::raw(3, 0, id, src.bulk(3)),
                4 => h2::raw(0, 0, 0, src.bulk(3)),
                _ => h2::raw(7, 0, 0, src.bulk(7)),
            };
            let n = out.put_slice(&r.bytes());
            (Event::Refused(r), n)
        }
        10 => {
            let s = settings(src);
            let s = if src.chance(1, 4) { Settings::ack() } else { s };
            let before = out.remaining();
            let n = Frame::<Binary>::Settings(s.clone()).encode(out, enc).map_err(e)?;
            let l = h2::split_frames(&out.chunk()[before..])?;
            ensure!(l.len() == 1 && l[0].kind == 4, "SETTINGS written as {:?}", l);
            (Event::Single(l[0].clone(), Got::Settings(s)), n)
        }
        11 => {
            let p: [u8; 8] = src.bulk(8).try_into().unwrap();
            let ack = src.bool();
            let f = if ack { Ping::pong(p) } else { Ping::new(p) };
            let n = Frame::<Binary>::from(f).encode(out, enc).map_err(e)?;
            (Event::Single(h2::raw(6, ack as u8, 0, p.to_vec()), Got::Ping { ack, data: p.to_vec() }), n)
        }
        12 => {
            let code = src.scaled(32) as u32;
            let n = Frame::<Binary>::from(Reset::new(StreamIdentifier(id), Reason::from(code))).encode(out, enc).map_err(e)?;
            (Event::Single(h2::raw(3, 0, id, code.to_be_bytes().to_vec()), Got::Reset { id, code }), n)
        }
        13 => {
            let id = if src.bool() { 0 } else { id };
            let inc = src.scaled(31).max(1) as u32;
            let n = Frame::<Binary>::from(WindowUpdate::new(StreamIdentifier(id), inc)).encode(out, enc).map_err(e)?;
            (Event::Single(h2::raw(8, 0, id, inc.to_be_bytes().to_vec()), Got::Window { id, inc }), n)
        }
        _ => {
            let (code, debug) = (src.scaled(32) as u32, src.bytes(30));
            let f = GoAway::with_debug_data(StreamIdentifier(id), Reason::from(code), Binary::from(debug.clone()));
            let n = Frame::from(f).encode(out, enc).map_err(e)?;
            let mut p = id.to_be_bytes().to_vec();
            p.extend_from_slice(&code.to_be_bytes());
            p.extend_from_slice(&debug);
            (Event::Single(h2::raw(7, 0, 0, p), Got::GoAway { last: id, code, debug }), n)
        }
    })
}
/// Takes the next frame off the stream as a reader of the library does.
fn next_frame(which: u64, wire: &mut BinaryMut) -> Result<(Raw, FrameHeader), String> {
    let b = wire.chunk();
    ensure!(b.len() >= 9, "the stream ends in a frame header");
    let n = (b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize;
    let r = h2::raw(b[3], b[4], u32::from_be_bytes([b[5], b[6], b[7], b[8]]), b[9..9 + n].to_vec());
    let h = match which {
        // straight from the stream
        0 => FrameHeader::parse(wire),
        _ => {
            let mut head = Binary::from(b[..9].to_vec());
            let h = FrameHeader::parse(&mut head);
            wire.advance(9);
            h
        }
    }
    .map_err(|x| format!("frame header of {:?} refused: {:?}", (r.kind, r.flags, r.id, n), x))?;
    same!("length", h.length as usize, n);
    wire.advance(n);
    Ok((r, h))
}
fn parse(src: &mut Src, r: &Raw, h: FrameHeader, dec: &mut Decoder) -> Result<Got, String> {
    let p = r.payload.clone();
    match src.upto(2) {
        0 => Frame::parse(h, Binary::from(p), dec, 1 << 24).map(h2::describe),
        1 => Frame::parse(h, BinaryMut::from(p), dec, 1 << 24).map(h2::describe),
        _ => Frame::parse(h, &p[..], dec, 1 << 24).map(h2::describe),
    }
    .map_err(|x| format!("{:?}", x))
}
fn connection(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut enc = Encoder::new_index(Arc::new(RwLock::new(HeaderIndex::new())), 16384);
    let ids: Vec<u32> = (0..src.range(1, 4)).map(|_| h2::sid(src)).collect();
    let mut out = BinaryMut::new();
    let mut events = Vec::new();
    let most = 12 + src.stretch(40, 8);
    while src.more(events.len(), most, 5) {
        if src.chance(1, 6) {
            enc.max_frame_size = match src.upto(2) {
                0 => 16384,
                1 => src.range(1, 300) as usize,
                _ => src.scaled(24).max(1) as usize,
            };
        }
        let before = out.remaining();
        let (ev, n) = event(src, &mut out, &mut enc, &ids)?;
        same!(format!("octets reported for {:?}", brief(&ev)), n, out.remaining() - before);
        ctx.input("event", &brief(&ev));
        ctx.class_if(matches!(ev, Event::Block { push: Some(_), .. }), "push");
        ctx.class_if(matches!(ev, Event::Refused(_)), "refused frame between");
        ctx.class_if(matches!(ev, Event::Table(_)), "table size change");
        events.push((ev, enc.max_frame_size));
    }
    ctx.nontrivial(events.len() > 1);
    let mut wire = out;
    let mut dec = Decoder::new();
    for (i, (ev, max)) in events.iter().enumerate() {
        read_event(src, ev, *max, &mut wire, &mut dec).map_err(|x| format!("event {} of {} {}: {}", i, events.len(), brief(ev), x))?;
    }
    same!("octets left", wire.remaining(), 0);
    Ok(())
}
fn brief(e: &Event) -> String {
    match e {
        Event::Data { id, end, data } => format!("DATA on {} of {} octets, end {}", id, data.len(), end),
        Event::Block { push, id, end, pseudo, fields } => format!(
            "{} on {}, end {}, {:?} {}",
            match push {
                Some(p) => format!("PUSH_PROMISE of {}", p),
                None => "HEADERS".into(),
            },
            id,
            end,
            pseudo,
            h2::fields_text(fields)
        ),
        e => format!("{:?}", e),
    }
}
/// HEADERS or PUSH_PROMISE with its CONTINUATION frames as one frame.
fn block(src: &mut Src, kind: u8, wire: &mut BinaryMut, dec: &mut Decoder, max: usize) -> Result<Got, String> {
    let (mut r, mut h) = next_frame(src.upto(1), wire)?;
    ensure!(r.kind == kind, "frame of type {} instead of {}", r.kind, kind);
    ensure!(r.payload.len() <= max, "{} octets in one frame, limit {}", r.payload.len(), max);
    while r.flags & h2::END_HEADERS == 0 {
        let (c, ch) = next_frame(src.upto(1), wire)?;
        ensure!(c.kind == 9 && ch.id == h.id, "frame {:?} instead of CONTINUATION", (c.kind, c.id));
        ensure!(c.payload.len() <= max, "{} octets in one CONTINUATION, limit {}", c.payload.len(), max);
        r.payload.extend_from_slice(&c.payload);
        r.flags |= c.flags & h2::END_HEADERS;
        h.length += c.payload.len() as u32;
        if c.flags & h2::END_HEADERS != 0 {
            h.flag.set_end_headers();
        }
    }
    parse(src, &r, h, dec)
}
fn read_event(src: &mut Src, ev: &Event, max: usize, wire: &mut BinaryMut, dec: &mut Decoder) -> R {
    match ev {
        Event::Table(n) => dec.index.write().unwrap().set_max_table_size(*n),
        Event::Refused(r) => {
            let (got, h) = next_frame(src.upto(1), wire)?;
            ensure!(got == *r, "read {:?}", got);
            let g = parse(src, r, h, dec);
            ensure!(g.is_err(), "faulty frame {:?} parses as {:?}", r, g);
        }
        Event::Single(r, want) => {
            let (got, h) = next_frame(src.upto(1), wire)?;
            ensure!(got == *r, "the frame on the wire is {:?}, expected {:?}", got, r);
            same!("frame", parse(src, &got, h, dec)?, *want);
        }
        Event::Data { id, end, data } => {
            let mut all = Vec::new();
            loop {
                let (r, h) = next_frame(src.upto(1), wire)?;
                ensure!(r.payload.len() <= max, "{} octets in one frame, limit {}", r.payload.len(), max);
                match parse(src, &r, h, dec)? {
                    Got::Data { id: i, end: e, data: d } => {
                        all.extend_from_slice(&d);
                        ensure!(i == *id, "DATA on {} instead of {}", i, id);
                        let last = all.len() >= data.len();
                        ensure!(e == (last && *end), "END_STREAM is {} after {} of {} octets", e, all.len(), data.len());
                        if last {
                            break;
                        }
                    }
                    g => return Err(format!("{:?}", g)),
                }
            }
            ensure!(all == *data, "the payload differs");
        }
        Event::Block { push, id, end, pseudo, fields } => {
            let mut p = Vec::new();
            let mut f = Vec::new();
            if let Some(promised) = push {
                match block(src, 5, wire, dec, max)? {
                    Got::Push { id: i, promised: n, pseudo, fields } => {
                        ensure!(i == *id && n == *promised, "a push on {} promising {}", i, n);
                        p.extend(pseudo);
                        f.extend(fields);
                    }
                    g => return Err(format!("{:?}", g)),
                }
            }
            match block(src, 1, wire, dec, max)? {
                Got::Headers { id: i, end_stream, end_headers, pseudo, fields } => {
                    ensure!(i == push.unwrap_or(*id) && end_stream == *end && end_headers, "HEADERS on {}, end {}", i, end_stream);
                    p.extend(pseudo);
                    f.extend(fields);
                }
                g => return Err(format!("{:?}", g)),
            }
            p.sort();
            ensure!(p == *pseudo, "pseudo-header fields {:?}", p);
            ensure!(f == *fields, "fields {}", h2::fields_text(&f));
        }
    }
    Ok(())
}
pub fn c44() -> Prop {
    Prop {
        id: "C44",
        rule: "up to 12 (sometimes some hundred) DATA, HEADERS, PUSH_PROMISE, SETTINGS, PING, RST_STREAM, WINDOW_UPDATE and GOAWAY frames on up to 4 streams, encoded one behind the other with one HPACK encoder into one buffer under changing frame-size limits, with HPACK table size changes on both sides and faulty frames between; read frame by frame from that buffer with one decoder. Non-trivial: more than one event.",
        assumptions: &["the reader joins CONTINUATION frames before it parses a header block, as the library expects", "table size changes are agreed between the frames"],
        subs: vec![
            sub("connection", Run::Random(12_000), connection),
            sub("large", Run::Random(40), |s, c| {
                s.arm(22);
                connection(s, c)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C45
fn conversation(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut out: Vec<u8> = Vec::new();
    let mut ends = Vec::new();
    let mut masks = Vec::new();
    // the message each frame completes, if any
    let mut completes: Vec<Option<OwnedMessage>> = Vec::new();
    let most = 6 + src.stretch(40, 8);
    let mut n = 0;
    let mut last_first: Vec<u8> = Vec::new();
    while src.more(n, most, 3) {
        n += 1;
        let mut m = ws::message(src, true);
        // equal pieces, a fragment may be the same as the one before
        let piece = if src.chance(1, 6) { 1 + src.size(130) } else { 0 };
        if piece > 0 {
            let unit = src.bulk_of(piece, b"ab ");
            let whole = unit.repeat(src.range(2, 5) as usize);
            m = if src.bool() { OwnedMessage::Binary(whole) } else { OwnedMessage::Text(String::from_utf8(whole).unwrap()) };
        }
        let (op, data) = ws::wire(&m);
        ctx.input("message", &match &m {
            OwnedMessage::Binary(b) => format!("binary {}", show(b)),
            m => format!("{:?}", m),
        });
        let cuts = match piece {
            0 if op < 8 => ws::cut_points(src, data.len()),
            0 => Vec::new(),
            _ => (piece..data.len()).step_by(piece).collect(),
        };
        ctx.input("cuts", &cuts);
        ctx.class_if(!cuts.is_empty(), "fragmented");
        ctx.class_if(piece > 0, "equal fragments");
        let parts = ws::split(&m, &cuts);
        let total = parts.len();
        for (i, p) in parts.into_iter().enumerate() {
            if i > 0 && total < 40 && src.chance(1, 3) {
                let c = match src.upto(2) {
                    0 => OwnedMessage::Ping(src.payload(125)),
                    1 => OwnedMessage::Pong(src.payload(125)),
                    _ => OwnedMessage::Close(None),
                };
                ctx.class("control frame between fragments");
                ctx.input("between", &c);
                let k = ws::key(src);
                match src.bool() {
                    true => c.write_to(&mut out, k),
                    false => ws::borrowed(&c).write_to(&mut out, k),
                }
                .map_err(|e| format!("write_to: {:?}", e))?;
                ends.push(out.len());
                masks.push(k.is_some());
                last_first.push(ws::wire(&c).0 | 0x80);
                completes.push(Some(c));
            }
            let k = ws::key(src);
            let first = if i + 1 == total { 0x80 } else { 0 } | if i == 0 { op } else { 0 };
            if total == 1 && src.bool() {
                match src.bool() {
                    true => m.write_to(&mut out, k),
                    false => ws::borrowed(&m).write_to(&mut out, k),
                }
            } else {
                p.write_to(&mut out, k)
            }
            .map_err(|e| format!("write_to: {:?}", e))?;
            ends.push(out.len());
            masks.push(k.is_some());
            last_first.push(first);
            completes.push(if i + 1 == total { Some(m.clone()) } else { None });
        }
    }
    ctx.nontrivial(ends.len() > 1);
    let mut at = 0;
    let mut read = 0;
    let mut open: Vec<DataFrame> = Vec::new();
    let mut before: Vec<DataFrame> = Vec::new();
    let join = src.chance(1, 3);
    let which = src.upto(2);
    for have in arrivals(src, out.len()) {
        loop {
            if read == ends.len() {
                break;
            }
            let rest = &out[at..have];
            let limit = if src.chance(1, 3) { Some(1 << 24) } else { None };
            let (r, left) = ws::read_frame(which, rest, masks[read], limit);
            let where_ = format!("frame {} of {} with {} of its octets received", read, ends.len(), rest.len());
            let f = match r {
                Err(e) => {
                    ensure!(ends[read] > have, "{}: refused: {}", where_, e);
                    break;
                }
                Ok(f) => f,
            };
            at = have - left.len();
            ensure!(at == ends[read], "{}: ended at {}, not at {}", where_, at, ends[read]);
            let first = if f.finished { 0x80 } else { 0 } | f.opcode as u8;
            same!(format!("{}: first octet", where_), first, last_first[read]);
            let control = f.opcode as u8 >= 8;
            let got = if control {
                Some(OwnedMessage::from_dataframes(vec![f]))
            } else {
                let last = f.is_last();
                ensure!(open.is_empty() == (f.opcode != Opcode::Continuation), "{}: {:?} with {} open fragments", where_, f.opcode, open.len());
                open.push(f);
                if last && join && open.iter().map(|f| f.data.len()).sum::<usize>() < 1 << 16 {
                    // the frames of two messages are not one message
                    let now = open.clone();
                    if !before.is_empty() {
                        let n = before.len();
                        before.extend(now.iter().cloned());
                        let r = OwnedMessage::from_dataframes(std::mem::replace(&mut before, Vec::new()));
                        ensure!(r.is_err(), "{} frames of a message and {} of the next were joined to {:?}", n, now.len(), r);
                        ctx.class("two messages joined");
                    }
                    before = now;
                }
                last.then(|| OwnedMessage::from_dataframes(std::mem::take(&mut open)))
            };
            match (got, &completes[read]) {
                (None, None) => {}
                (Some(Ok(g)), Some(m)) => ensure!(g == *m, "{}: message {:?}, sent {:?}", where_, g, m),
                (g, m) => return Err(format!("{}: completes {:?}, sent {:?}", where_, g, m)),
            }
            read += 1;
        }
    }
    same!("frames read", read, ends.len());
    ensure!(open.is_empty(), "{} fragments are left open", open.len());
    Ok(())
}
pub fn c45() -> Prop {
    Prop {
        id: "C45",
        rule: "up to 6 (sometimes some hundred) text, binary, ping, pong and close messages, data messages cut into up to some tens of fragments with control frames between them, every frame with its own or no masking key, written one behind the other; received whole, octet by octet, in steps or at random cuts; a reader that takes frames off as they become complete and joins fragments. Non-trivial: more than one frame.",
        assumptions: &["the reader keeps control frames apart from the fragments around them"],
        subs: vec![
            sub("conversation", Run::Random(12_000), conversation),
            sub("large", Run::Random(40), |s, c| {
                s.arm(22);
                conversation(s, c)
            }),
        ],
    }
}
