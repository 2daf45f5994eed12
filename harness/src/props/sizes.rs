//! C29: the size an encoder reports is the number of bytes it appended.
use super::gen::*;
use super::h2::{appended, good_frame};
use super::hpack_ref::Table;
use super::http1::{body_bytes, method_of, version_of};
use super::ws;
use crate::engine::*;
use crate::{ensure, same};
use algorithm::buf::{Binary, BinaryMut, Bt};
use webparse::http2::encoder::Encoder;
use webparse::http2::frame::{encode_u24, ErrorCode, Flag, Frame, FrameHeader, Headers, Kind as FrameKind, SizeIncrement, StreamIdentifier};
use webparse::http2::{Decoder, HeaderIndex};
use webparse::ws::{DataFrame, DataFrameable, Opcode};
use webparse::{HeaderMap, Helper, Method, Request, Response, Scheme, Serialize, StatusCode, Url, Version};

/// A buffer with earlier contents, possibly partly read.
struct Out {
    buf: BinaryMut,
    prefix: Vec<u8>,
}
impl Out {
    fn new(src: &mut Src) -> Out {
        let mut buf = match src.upto(2) {
            0 => BinaryMut::new(),
            1 => BinaryMut::with_capacity(src.size(40)),
            _ => BinaryMut::from(src.bytes(30)),
        };
        let extra = src.bytes(20);
        buf.put_slice(&extra);
        let all = buf.chunk().len();
        if all > 0 && src.chance(1, 3) {
            let n = src.below(all);
            buf.advance(n);
        }
        let prefix = buf.chunk().to_vec();
        Out { buf, prefix }
    }
    /// Encodes once more into the same buffer; an encoder that fails may have
    /// written a part, but must not touch what was there.
    fn put<E: std::fmt::Debug>(&mut self, what: &str, f: impl FnOnce(&mut BinaryMut) -> Result<usize, E>) -> Result<Option<Vec<u8>>, String> {
        match f(&mut self.buf) {
            Ok(n) => {
                let v = appended(what, &self.buf, &self.prefix, n)?;
                self.prefix = self.buf.chunk().to_vec();
                Ok(Some(v))
            }
            Err(_) => {
                ensure!(self.buf.chunk().starts_with(&self.prefix), "{}: bytes already in the buffer changed", what);
                self.prefix = self.buf.chunk().to_vec();
                Ok(None)
            }
        }
    }
}

fn any_headers(src: &mut Src) -> Vec<(String, Vec<u8>)> {
    let mut l = headers(src, 8, &[]);
    if src.chance(1, 8) {
        // something the encoder may refuse
        let v = src.bytes(12);
        let n = match src.upto(2) {
            0 => "a b".to_string(),
            1 => String::new(),
            _ => "x-any".to_string(),
        };
        if !contains_name(&l, &n) {
            l.push((n, v));
        }
    }
    l
}
fn status(src: &mut Src) -> StatusCode {
    match src.upto(3) {
        0 => StatusCode::from_u16(src.range(100, 999) as u16).unwrap(),
        _ => src.pick(super::tokens::CODES).1,
    }
}
fn messages(src: &mut Src, ctx: &mut Ctx) -> R {
    let list = any_headers(src);
    ctx.input("headers", &show_headers(&list));
    let map = mk_map(src, &list);
    let mut out = Out::new(src);
    ctx.bytes("before", &out.prefix);
    ctx.nontrivial(!list.is_empty());
    let h = out.put("HeaderMap::encode", |b| map.encode(b))?;
    // request
    let mut req = Request::new();
    req.set_method(if src.chance(1, 10) { Method::Extension(hname(src)) } else { method_of(*src.pick(methods())) });
    req.set_version(if src.chance(1, 20) { Version::None } else { version_of(*src.pick(versions())) });
    let mut url = Url::new();
    if src.bool() {
        url.domain = Some(host(src));
        url.port = Some(port(src));
        url.scheme = Scheme::Http;
    }
    url.path = text(src, 30);
    if src.bool() {
        url.query = Some(text(src, 30));
    }
    *req.url_mut() = url;
    *req.headers_mut() = mk_map(src, &list);
    ctx.input("request", &(req.method(), req.version(), req.url()));
    let head = out.put("Request::encode_header", |b| req.encode_header(b))?;
    let body = if src.chance(1, 300) {
        let n = src.range(1 << 20, 3 << 20) as usize;
        ctx.class("body of more than a MiB");
        src.bulk(n)
    } else {
        body_bytes(src)
    };
    if let Some(head) = &head {
        let h = h.as_ref().ok_or("the header map alone is refused, but not in a request")?;
        ensure!(head.ends_with(h), "a request head does not end with its headers");
        let mut r = Request::into(req, body.clone()).0;
        let all = r.http1_data().map_err(|e| format!("{:?}", e))?;
        ensure!(all == [&head[..], &body[..]].concat(), "http1_data is not head and body");
    }
    // response
    let mut res = Response::new(body.clone());
    *res.status_mut() = status(src);
    *res.version_mut() = if src.chance(1, 20) { Version::None } else { version_of(*src.pick(versions())) };
    *res.headers_mut() = mk_map(src, &list);
    ctx.input("response", &(res.version(), res.status(), body.len()));
    let head = out.put("Response::encode_header", |b| res.encode_header(b))?;
    let all = out.put("Response::serialize", |b| res.serialize(b))?;
    same!("head alone and whole response fail alike", head.is_none(), all.is_none());
    if let (Some(head), Some(all)) = (head, all) {
        ensure!(all == [&head[..], &body[..]].concat(), "a serialised response is not head and body");
        same!("httpdata", res.httpdata().map_err(|e| format!("{:?}", e))?.len(), all.len());
        ctx.class("both heads written");
    }
    Ok(())
}

fn pieces(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut out = Out::new(src);
    ctx.bytes("before", &out.prefix);
    let n = src.range(1, 6);
    for _ in 0..n {
        let data = if src.chance(1, 8) { super::http1::chunk_data(src) } else { src.payload(300) };
        let txt = text(src, 40);
        let which = src.upto(17);
        ctx.input("piece", &which);
        ctx.nontrivial(true);
        let num = src.scaled(32) as u32;
        let (what, want): (&str, Option<Vec<u8>>) = match which {
            0 => ("str", { let s = leak(&txt); let r = out.put("str", |b| { let mut s = s; s.serialize(b) })?; same!("str", r.as_deref(), Some(txt.as_bytes())); r }),
            1 => ("String", out.put("String", |b| txt.clone().serialize(b))?),
            2 => ("()", out.put("()", |b| ().serialize(b))?),
            3 => ("Vec", out.put("Vec", |b| data.clone().serialize(b))?),
            4 => ("&[u8]", out.put("&[u8]", |b| { let mut d = &data[..]; d.serialize(b) })?),
            5 => ("Binary", {
                let mut d = Binary::from(data.clone());
                let skip = src.below(data.len() + 1);
                d.advance(skip);
                let r = out.put("Binary", |b| d.serialize(b))?;
                same!("Binary", r.as_deref(), Some(&data[skip..]));
                r
            }),
            6 => ("BinaryMut", {
                let mut d = BinaryMut::from(data.clone());
                let skip = src.below(data.len() + 1);
                d.advance(skip);
                let r = out.put("BinaryMut", |b| d.serialize(b))?;
                same!("BinaryMut", r.as_deref(), Some(&data[skip..]));
                r
            }),
            7 => ("HeaderName", { let s = hname(src); let k = mk_name(src, &s); out.put("HeaderName", |b| k.encode(b))? }),
            8 => ("HeaderValue", { let k = mk_value(src, &data); out.put("HeaderValue", |b| k.encode(b))? }),
            9 => ("Method", { let mut m = if src.bool() { Method::Extension(txt.clone()) } else { method_of(*src.pick(methods())) }; out.put("Method", |b| m.encode(b))? }),
            10 => ("Version", { let mut v = version_of(*src.pick(versions())); out.put("Version", |b| v.encode(b))? }),
            11 => ("StatusCode", { let mut s = status(src); out.put("StatusCode", |b| s.encode(b))? }),
            12 => ("Scheme", { let mut s = super::url::scheme(src); out.put("Scheme", |b| s.serialize(b))? }),
            13 => ("chunk", { let r = out.put("encode_chunk_data", |b| Helper::encode_chunk_data(b, &data))?; ensure!(r.is_some(), "a chunk is refused"); r }),
            14 => ("StreamIdentifier", out.put("StreamIdentifier", |b| StreamIdentifier(num).encode(b))?),
            15 => ("SizeIncrement", {
                let a = out.put("SizeIncrement::encode", |b| Ok::<usize, ()>(SizeIncrement(num).encode(b)))?;
                let c = out.put("SizeIncrement::serialize", |b| SizeIncrement(num).serialize(b))?;
                same!("size increment", a, c);
                same!("size increment", a, Some(num.to_be_bytes().to_vec()));
                a
            }),
            16 => ("ErrorCode", out.put("ErrorCode", |b| ErrorCode(num).serialize(b))?),
            _ => ("FrameHeader", {
                let mut h = FrameHeader::new(FrameKind::new(src.upto(12) as u8), Flag::zero(), StreamIdentifier(num >> 1));
                h.length = num >> 8;
                let r = out.put("FrameHeader", |b| h.encode(b))?;
                same!("frame header size", r.map(|v| v.len()), Some(9));
                out.put("encode_u24", |b| Ok::<usize, ()>(encode_u24(b, num >> 8)))?
            }),
        };
        match what {
            "String" => same!(what, want.as_deref(), Some(txt.as_bytes())),
            "Vec" | "&[u8]" | "HeaderValue" => same!(what, want.as_deref(), Some(&data[..])),
            "()" => same!(what, want.map(|v| v.len()), Some(0)),
            _ => {}
        }
    }
    Ok(())
}

fn frames(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut dec = Decoder::new();
    let limit = *src.pick(&[16_384usize, 1, 4, 5, 16, 100, 1 << 20]);
    ctx.input("frame size limit", &limit);
    let mut enc = Encoder::new_index(std::sync::Arc::new(std::sync::RwLock::new(HeaderIndex::new())), limit);
    let mut t = Table::new();
    let mut out = Out::new(src);
    ctx.bytes("before", &out.prefix);
    let n = src.range(1, 5);
    for _ in 0..n {
        let kind = src.upto(8) as u8;
        let r = good_frame(src, &mut t, kind);
        ctx.input("frame", &r);
        let e = |x: webparse::WebError| format!("{:?}", x);
        let mut b = Binary::from(r.bytes());
        let h = FrameHeader::parse(&mut b).map_err(e)?;
        let f = Frame::parse(h, b, &mut dec, 1 << 20).map_err(e)?;
        let name = f.display_name();
        if kind == 5 && limit < 4 {
            continue;
        }
        if let Frame::Ping(p) = &f {
            let mut p = p.clone();
            out.put("Ping::serialize", |b| p.serialize(b))?;
        }
        let v = out.put(&name, |b| f.encode(b, &mut enc))?;
        let v = v.ok_or_else(|| format!("encoding a {} frame fails", name))?;
        ensure!(v.len() >= 9, "a {} frame of {} bytes", name, v.len());
        ctx.nontrivial(v.len() > 9);
        ctx.class_if(v.len() > 9 + limit, "more than one frame written");
    }
    // a header frame built by the caller
    let list = headers(src, 5, &[]);
    ctx.input("fields", &show_headers(&list));
    let mut map = HeaderMap::new();
    for (n, v) in &list {
        map.insert(mk_name(src, &n.to_ascii_lowercase()), mk_value(src, v));
    }
    let head = FrameHeader::new(FrameKind::Headers, Flag::end_headers(), StreamIdentifier(1));
    let f: Frame<Binary> = Frame::Headers(Headers::new(head, map));
    out.put("Headers", |b| f.encode(b, &mut enc))?;
    Ok(())
}

fn websocket(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut out = Out::new(src);
    ctx.bytes("before", &out.prefix);
    let n = src.range(1, 4);
    for _ in 0..n {
        let key = ws::key(src);
        ctx.input("mask", &key);
        match src.upto(2) {
            0 => {
                let op = Opcode::new(src.upto(15) as u8).unwrap();
                let data = ws::payload(src, src.index % 2 == 0);
                ctx.input("frame", &(op, data.len()));
                let size = data.len();
                let f = DataFrame { finished: src.bool(), reserved: [src.bool(), src.bool(), src.bool()], opcode: op, data };
                let v = out.put("DataFrame", |b| f.write_to(b, key))?;
                if let Some(v) = v {
                    same!("frame_size", f.frame_size(key.is_some()), v.len());
                    ctx.nontrivial(size > 0);
                    let mut plain = Vec::new();
                    let n = f.write_to(&mut plain, key).map_err(|e| format!("{:?}", e))?;
                    same!("written into a Vec", (n, &plain), (v.len(), &v));
                }
            }
            w => {
                let m = ws::message(src, true);
                ctx.input("message", &m);
                let v = if w == 1 {
                    out.put("OwnedMessage", |b| m.write_to(b, key))?
                } else {
                    out.put("Message", |b| ws::borrowed(&m).write_to(b, key))?
                };
                let v = v.ok_or("writing a message fails")?;
                same!("frame_size", m.frame_size(key.is_some()), v.len());
                ctx.nontrivial(v.len() > 2);
            }
        }
    }
    Ok(())
}

pub fn c29() -> Prop {
    Prop {
        id: "",
        rule: "a head with headers, a single encodable value, a frame with a payload, or a non-empty WebSocket frame, written after earlier buffer contents",
        assumptions: &["Frame::serialize and encoded_len are unfinished stubs of the library and are not covered", "an encoder that fails may have written part of its output"],
        subs: vec![
            sub("messages", Kind::Random(20_000), messages),
            sub("pieces", Kind::Random(30_000), pieces),
            sub("frames", Kind::Random(20_000), frames),
            sub("websocket", Kind::Random(15_000), websocket),
        ],
    }
}
