//! C01 C02 C03 C04 C07 C30: HTTP/1 heads, chunks.
use super::gen::*;
use crate::engine::*;
use crate::{ensure, same};
use algorithm::buf::{Binary, BinaryMut, BinaryRef, Bt};
use webparse::{Helper, Method, Request, Response, Scheme, StatusCode, Url, Version};

pub fn version_of(s: &str) -> Version {
    match s {
        "HTTP/1.0" => Version::Http10,
        "HTTP/1.1" => Version::Http11,
        "HTTP/2" => Version::Http2,
        "HTTP/3" => Version::Http3,
        _ => unreachable!(),
    }
}
pub fn method_of(s: &str) -> Method {
    match s {
        "GET" => Method::Get,
        "POST" => Method::Post,
        "PUT" => Method::Put,
        "DELETE" => Method::Delete,
        "HEAD" => Method::Head,
        "OPTIONS" => Method::Options,
        "CONNECT" => Method::Connect,
        "PATCH" => Method::Patch,
        "TRACE" => Method::Trace,
        _ => unreachable!(),
    }
}

pub fn body_bytes(src: &mut Src) -> Vec<u8> {
    if let Some(n) = src.large(1 << 23) {
        return src.bulk(n);
    }
    match src.upto(5) {
        0 => Vec::new(),
        1 => src.bytes(40),
        4 => {
            let n = src.scaled(18) as usize;
            src.bulk(n)
        }
        5 => {
            // text, some of it with a byte order mark or blank ends
            let t = text(src, 20);
            format!("{}{}{}", src.pick(&["", "\u{feff}", " ", "\r\n", "\0"]), t, src.pick(&["", "\u{feff}", " ", "\n", "\0"])).into_bytes()
        }
        2 => src.pick(&[&b"\r\n\r\n"[..], b"\r\n", b"GET / HTTP/1.1\r\n\r\n", b"a: b\r\n\r\n", b"\0"]).to_vec(),
        _ => src.payload(3000),
    }
}

/// Serialises a head and a body with a body of one of the types that can be
/// serialised, twice: the bytes must be the same.
macro_rules! through_body {
    ($src:expr, $ctx:expr, $head:expr, $body:expr, $data:ident) => {{
        let e = |x: webparse::WebError| format!("serialising failed: {:?}", x);
        macro_rules! with {
            ($what:expr, $b:expr) => {{
                $ctx.class($what);
                let mut m = $head.into($b).0;
                let first = m.$data().map_err(e)?;
                let second = m.$data().map_err(e)?;
                ensure!(first == second, "{}: serialised twice: {} and {}", $what, show(&first), show(&second));
                first
            }};
        }
        let body: &[u8] = $body;
        match ($src.upto(9), std::str::from_utf8(body)) {
            (0, _) => with!("Vec body", body.to_vec()),
            (1, _) => with!("Binary body", Binary::from(body.to_vec())),
            (2, _) => with!("BinaryMut body", BinaryMut::from(body.to_vec())),
            (3, Ok(s)) => with!("String body", s.to_string()),
            (4, Ok(s)) if s.len() < 200_000 => with!("str body", leak(s)),
            (5, _) => with!("slice body", body),
            (6, _) => {
                // what has been read of the buffer does not belong to the body
                let mut v = $src.bytes(5);
                let n = v.len();
                v.extend_from_slice(body);
                let mut b = Binary::from(v);
                b.advance(n);
                with!("rest of a Binary", b)
            }
            (7, _) => {
                let mut v = $src.bytes(5);
                let n = v.len();
                v.extend_from_slice(body);
                let mut b = BinaryMut::from(v);
                b.advance(n);
                with!("rest of a BinaryMut", b)
            }
            (8, _) if body.is_empty() => with!("empty body", ()),
            _ => {
                $ctx.class("head alone");
                let mut head = $head;
                let mut b = BinaryMut::new();
                head.encode_header(&mut b).map_err(e)?;
                let mut v = b.into_slice_all();
                v.extend_from_slice(body);
                v
            }
        }
    }};
}

fn req_bytes(src: &mut Src, ctx: &mut Ctx, req: Request<()>, body: &[u8]) -> Result<Vec<u8>, String> {
    Ok(through_body!(src, ctx, req, body, http1_data))
}
fn resp_bytes(src: &mut Src, ctx: &mut Ctx, res: Response<()>, body: &[u8]) -> Result<Vec<u8>, String> {
    if src.chance(1, 6) {
        ctx.class("into_binary");
        let e = |x: webparse::WebError| format!("serialising failed: {:?}", x);
        return Ok(match std::str::from_utf8(body) {
            Ok(s) if src.bool() => res.into(s.to_string()).0.into_binary().httpdata().map_err(e)?,
            _ => res.into(body.to_vec()).0.into_binary().httpdata().map_err(e)?,
        });
    }
    Ok(through_body!(src, ctx, res, body, httpdata))
}

fn host_value(src: &mut Src) -> Vec<u8> {
    match src.upto(3) {
        0 => Vec::new(),
        1 => host(src).into_bytes(),
        _ => format!("{}:{}", host(src), port(src)).into_bytes(),
    }
}

// ------------------------------------------------------------------ C01
type Lines = Vec<(String, Vec<u8>)>;
/// Takes a serialised head apart as RFC 7230 spells it, knowing nothing of the
/// library: the three parts of the start line (the last may hold spaces) and
/// the header lines.
fn strict_head(head: &[u8]) -> Result<(Vec<Vec<u8>>, Lines), String> {
    let bad = |what: &str| format!("not the RFC 7230 form ({}): {}", what, show(head));
    let text = head.strip_suffix(b"\r\n\r\n").ok_or_else(|| bad("end of the head"))?;
    let mut lines: Vec<&[u8]> = Vec::new();
    let mut rest = text;
    while let Some(i) = rest.windows(2).position(|w| w == b"\r\n") {
        lines.push(&rest[..i]);
        rest = &rest[i + 2..];
    }
    lines.push(rest);
    ensure!(lines.iter().all(|l| !l.contains(&b'\r') && !l.contains(&b'\n') && !l.is_empty()), "{}", bad("line ends"));
    let start: Vec<Vec<u8>> = lines[0].splitn(3, |b| *b == b' ').map(|x| x.to_vec()).collect();
    ensure!(start.len() == 3, "{}", bad("start line"));
    let mut list = Lines::new();
    for l in &lines[1..] {
        let i = l.iter().position(|b| *b == b':').ok_or_else(|| bad("header line"))?;
        let value = &l[i + 1..];
        ensure!(value.starts_with(b" "), "{}", bad("blank after the colon"));
        list.push((String::from_utf8_lossy(&l[..i]).to_string(), value[1..].to_vec()));
    }
    Ok((start, list))
}
fn unescape(s: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' {
            let h = s.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
            out.push(h.ok_or_else(|| format!("broken escape in {}", show(s)))?);
            i += 3;
        } else {
            ensure!(s[i].is_ascii_graphic(), "byte {:#x} in the target {}", s[i], show(s));
            out.push(s[i]);
            i += 1;
        }
    }
    Ok(out)
}
fn strict_request(head: &[u8], method: &str, version: &str, target: &str, query: Option<&str>, list: &Lines) -> R {
    let (start, got) = strict_head(head)?;
    same!("method on the wire", String::from_utf8_lossy(&start[0]), method);
    same!("version on the wire", String::from_utf8_lossy(&start[2]), version);
    let mut parts = start[1].splitn(2, |b| *b == b'?');
    let path = unescape(parts.next().unwrap_or(b""))?;
    let q = parts.next().map(unescape).transpose()?;
    ensure!(path == target.as_bytes(), "target on the wire is {}, expected {}", show(&start[1]), target);
    ensure!(q.as_deref() == query.map(|q| q.as_bytes()), "query on the wire is {}, expected {:?}", show(&start[1]), query);
    ensure!(same_headers(&got, list), "headers on the wire: {}, expected {}", show_headers(&got), show_headers(list));
    Ok(())
}

fn request_roundtrip(src: &mut Src, ctx: &mut Ctx) -> R {
    let method = *src.pick(methods());
    let version = *src.pick(versions());
    let mut list = headers(src, 8, &["host"]);
    if src.chance(1, 2) {
        let i = src.below(list.len() + 1);
        let v = host_value(src);
        let n = recase(src, "host");
        list.insert(i, (n, v));
    }
    let body = body_bytes(src);
    let mut req;
    let (mut dom, mut prt) = (None, None);
    if method == "CONNECT" {
        req = Request::new();
        let h = host(src);
        let p = port(src);
        req.url_mut().domain = Some(h.clone());
        req.url_mut().port = Some(p);
        req.set_method(method_of(method));
        req.set_version(version_of(version));
        *req.headers_mut() = mk_map(src, &list);
        dom = Some(h);
        prt = Some(p);
        ctx.class("connect");
    } else {
        let mut path = format!("/{}", text(src, 20));
        let mut query = if src.bool() { Some(text(src, 20)) } else { None };
        if method == "OPTIONS" && src.chance(1, 3) {
            // about the server as a whole
            path = "*".to_string();
            query = None;
            ctx.class("asterisk");
        } else if src.chance(1, 12) {
            // no path at all is sent as the root
            path.clear();
            ctx.class("empty path");
        }
        if src.chance(1, 3) {
            // through the builder and a URL object with scheme and host
            let mut u = Url::new();
            if src.bool() {
                u.scheme = src.pick(&[Scheme::Http, Scheme::Https, Scheme::Ws]).clone();
                u.domain = Some(host(src));
                u.port = Some(port(src));
                ctx.class("absolute");
            }
            u.path = path.clone();
            u.query = query.clone();
            let mut b = Request::builder().method(method).version(version_of(version)).url(u);
            for (n, v) in &list {
                let n = mk_name(src, n);
                let v = mk_value(src, v);
                b = b.header(n, v);
            }
            req = b.body(()).map_err(|e| format!("builder failed: {:?}", e))?;
            list = map_list(req.headers());
        } else {
            req = Request::new();
            req.set_method(method_of(method));
            req.set_version(version_of(version));
            req.set_path(path.clone());
            req.url_mut().query = query.clone();
            *req.headers_mut() = mk_map(src, &list);
        }
        ctx.class_if(query.is_some(), "query");
        ctx.class_if(!path.bytes().all(path_char), "path needs escaping");
        same!("path of the request built", req.path(), &path);
    }
    let (path, query) = (req.path().clone(), req.url().query.clone());
    ctx.input("method", &method);
    ctx.input("version", &version);
    ctx.input("path", &path);
    ctx.input("query", &query);
    ctx.input("target", &(&dom, prt));
    ctx.input("headers", &show_headers(&list));
    ctx.bytes("body", &body);
    ctx.nontrivial(!list.is_empty() || query.is_some() || path.len() > 1 || dom.is_some());
    ctx.class_if(list.len() >= 4, "4+ headers");
    let out = req_bytes(src, ctx, req, &body)?;
    ensure!(out.ends_with(&body), "serialised form does not end with the body: {}", show(&out));
    let mut back = Request::new();
    let n = back.parse(&out).map_err(|e| format!("parsing {} failed: {:?}", show(&out), e))?;
    ensure!(
        n == out.len() - body.len(),
        "consumed {} bytes of a {}-byte head: {}",
        n,
        out.len() - body.len(),
        show(&out)
    );
    let shown = match (&dom, prt) {
        (Some(d), Some(p)) => format!("{}:{}", d, p),
        _ if path.is_empty() => "/".to_string(),
        _ => path.clone(),
    };
    strict_request(&out[..n], method, version, &shown, query.as_deref().filter(|_| dom.is_none()), &list)?;
    ensure!(back.is_complete() && !back.is_partial(), "parsed request not marked complete");
    same!("method", back.method(), &method_of(method));
    same!("version", back.version(), version_of(version));
    let got = map_list(back.headers());
    ensure!(same_headers(&got, &list), "headers: got {}, expected {}", show_headers(&got), show_headers(&list));
    if method == "CONNECT" {
        same!("CONNECT host", back.url().domain, dom);
        same!("CONNECT port", back.url().port, prt);
    } else {
        same!("path", back.path().as_str(), if path.is_empty() { "/" } else { &path });
        same!("query", back.url().query, query);
    }
    Ok(())
}

/// A well-formed head as it may arrive on the wire.
pub struct Wire {
    pub bytes: Vec<u8>,
    pub lines: Vec<Vec<u8>>, // start line and header lines, without line ends
    pub ends: Vec<&'static [u8]>,
    pub lead: Vec<u8>,
    pub headers: Vec<(String, Vec<u8>)>,
    pub method: &'static str,
}

impl Wire {
    pub fn assemble(&mut self) {
        let mut b = self.lead.clone();
        for (i, l) in self.lines.iter().enumerate() {
            b.extend_from_slice(l);
            b.extend_from_slice(self.ends[i % self.ends.len()]);
        }
        b.extend_from_slice(self.ends[self.lines.len() % self.ends.len()]);
        self.bytes = b;
    }
}

fn wire_tail(src: &mut Src, request: bool, start: String, method: &'static str) -> Wire {
    let most = *src.pick(&[6usize, 6, 6, 0, 15]);
    let mut list = headers(src, most, &["host"]);
    if request && src.chance(if most == 0 { 1 } else { 2 }, 3) {
        let v = host_value(src);
        let i = src.below(list.len() + 1);
        let n = recase(src, "host");
        list.insert(i, (n, v));
    }
    let mut lines = vec![start.into_bytes()];
    for (n, v) in &list {
        let mut l = n.clone().into_bytes();
        l.push(b':');
        l.extend(ows(src));
        l.extend_from_slice(v);
        if src.chance(1, 4) {
            l.extend(ows(src));
        }
        lines.push(l);
    }
    let ends: Vec<&'static [u8]> = match src.upto(3) {
        0 | 1 => vec![b"\r\n"],
        2 => vec![b"\n"],
        _ => (0..lines.len() + 1).map(|_| if src.bool() { &b"\r\n"[..] } else { &b"\n"[..] }).collect(),
    };
    let lead = if src.chance(1, 6) { empty_lines(src) } else { vec![] };
    let mut w = Wire { bytes: vec![], lines, ends, lead, headers: list, method };
    w.assemble();
    w
}

/// One or more empty lines, ended either way; sometimes some hundred.
pub fn empty_lines(src: &mut Src) -> Vec<u8> {
    let n = 1 + if src.chance(1, 8) { src.scaled(9) as usize } else { src.size(6) };
    let kind = src.upto(3);
    let mut b = vec![];
    for i in 0..n {
        b.extend_from_slice(match kind {
            0 | 1 => b"\r\n",
            2 => b"\n",
            _ if i % 2 == 0 => b"\n",
            _ => b"\r\n",
        });
    }
    b
}

fn target(src: &mut Src) -> String {
    let p = text(src, 12);
    let mut t = format!("/{}", pct(src, p.as_bytes(), path_char));
    if src.bool() {
        let q = text(src, 12);
        t.push('?');
        t.push_str(&pct(src, q.as_bytes(), query_char));
    }
    if src.chance(1, 4) {
        let mut a = format!("{}://{}", src.pick(&["http", "https", "ws"]), host(src));
        if src.bool() {
            a.push_str(&format!(":{}", port(src)));
        }
        a.push_str(&t);
        t = a;
    }
    t
}

pub fn wire_request(src: &mut Src) -> Wire {
    let method = *src.pick(methods());
    let version = *src.pick(versions());
    let t = if method == "CONNECT" {
        let h = host(src);
        if src.bool() {
            format!("{}:{}", h, port(src))
        } else {
            h
        }
    } else if method == "OPTIONS" && src.chance(1, 3) {
        "*".to_string()
    } else {
        target(src)
    };
    let start = format!("{} {} {}", method, t, version);
    wire_tail(src, true, start, method)
}

fn reason(src: &mut Src) -> Vec<u8> {
    match src.upto(3) {
        0 => Vec::new(),
        1 => src.pick(&["OK", "Not Found", "I'm a teapot", "x", "  spaced  ", "\u{6210}\u{529f}", "\t", "a\tb"]).as_bytes().to_vec(),
        _ => {
            let n = src.size(30);
            (0..n)
                .map(|_| match src.byte() {
                    b @ (0x20..=0x7e | b'\t' | 0x80..=0xff) => b,
                    _ => b'r',
                })
                .collect()
        }
    }
}

pub fn wire_response(src: &mut Src) -> Wire {
    let version = *src.pick(versions());
    let code = src.range(100, 999);
    let mut w = wire_tail(src, false, String::new(), "");
    let mut l = format!("{} {} ", version, code).into_bytes();
    l.extend(reason(src));
    w.lines[0] = l;
    w.assemble();
    w
}

fn request_reparse(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = wire_request(src);
    ctx.bytes("wire", &w.bytes);
    ctx.nontrivial(w.lines.len() > 1);
    ctx.class_if(w.method == "CONNECT", "connect");
    let mut a = Request::new();
    a.parse(&w.bytes).map_err(|e| format!("well-formed request refused: {:?}", e))?;
    let (m, v, p, q) = (a.method().clone(), a.version(), a.path().clone(), a.url().query.clone());
    let (d, t) = (a.url().domain.clone(), a.url().port);
    let h = map_list(a.headers());
    let out = a.http1_data().map_err(|e| format!("serialising a parsed request failed: {:?}", e))?;
    ctx.bytes("serialised", &out);
    let mut b = Request::new();
    let n = b.parse(&out).map_err(|e| format!("parsing {} failed: {:?}", show(&out), e))?;
    same!("consumed", n, out.len());
    same!("method", b.method(), &m);
    same!("version", b.version(), v);
    if w.method == "CONNECT" {
        same!("CONNECT host", b.url().domain, d);
        same!("CONNECT port", b.url().port, t);
    } else {
        same!("path", b.path(), &p);
        same!("query", b.url().query, q);
    }
    let got = map_list(b.headers());
    ensure!(same_headers(&got, &h), "headers: got {}, expected {}", show_headers(&got), show_headers(&h));
    Ok(())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "random requests (9 methods, 4 versions, arbitrary Unicode paths/queries, 0-9 distinct headers with arbitrary bytes, bodies incl. CRLFs) built field by field or through Builder/Url and serialised through 5 body routes; and random well-formed wire heads parsed, serialised, parsed; a share of the cases has hundreds of headers or names, values, targets and bodies of up to some MiB. Non-trivial: at least one header, a query, a longer path or a CONNECT target.",
        assumptions: &["paths start with '/' or are the '*' of OPTIONS", "Host header values are host or host:port", "header names are RFC 7230 tokens"],
        subs: vec![
            sub("request_roundtrip", Kind::Random(30_000), request_roundtrip),
            sub("request_reparse", Kind::Random(20_000), request_reparse),
            sub("large", Kind::Random(200), |s, c| {
                s.arm(22);
                request_roundtrip(s, c)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C02
fn response_roundtrip(src: &mut Src, ctx: &mut Ctx) -> R {
    let registered: Vec<u16> =
        (100..1000).filter(|c| StatusCode::from_u16(*c).map(|s| s.canonical_reason().is_some()).unwrap_or(false)).collect();
    ensure!(registered.len() >= 40, "only {} status codes have a phrase", registered.len());
    let code = *src.pick(&registered);
    let version = *src.pick(versions());
    let mut list = headers(src, 8, &[]);
    let body = body_bytes(src);
    let status = StatusCode::from_u16(code).map_err(|e| format!("{:?}", e))?;
    let map = mk_map(src, &list);
    let mut res: Response<()> = if src.bool() {
        let b = Response::builder().status(code).version(version_of(version)).headers(map);
        let r = b.body(()).map_err(|e| format!("builder failed: {:?}", e))?;
        list = map_list(r.headers());
        r
    } else {
        let mut r = Response::new(());
        *r.status_mut() = status;
        *r.version_mut() = version_of(version);
        *r.headers_mut() = map;
        r
    };
    ctx.input("status", &code);
    ctx.input("version", &version);
    ctx.input("headers", &show_headers(&list));
    ctx.bytes("body", &body);
    ctx.nontrivial(!list.is_empty() || !body.is_empty());
    let out = resp_bytes(src, ctx, res, &body)?;
    ensure!(out.ends_with(&body), "serialised form does not end with the body");
    let mut back = Response::new(());
    let n = back.parse(&out).map_err(|e| format!("parsing {} failed: {:?}", show(&out), e))?;
    ensure!(n == out.len() - body.len(), "consumed {} of a {}-byte head: {}", n, out.len() - body.len(), show(&out));
    let (start, wire) = strict_head(&out[..n])?;
    same!("version on the wire", String::from_utf8_lossy(&start[0]), version);
    same!("status on the wire", String::from_utf8_lossy(&start[1]), code.to_string());
    ensure!(same_headers(&wire, &list), "headers on the wire: {}, expected {}", show_headers(&wire), show_headers(&list));
    ensure!(!back.is_partial(), "parsed response marked partial");
    same!("status", back.status().as_u16(), code);
    same!("version", back.version(), version_of(version));
    let got = map_list(back.headers());
    ensure!(same_headers(&got, &list), "headers: got {}, expected {}", show_headers(&got), show_headers(&list));
    Ok(())
}

fn response_any_reason(src: &mut Src, ctx: &mut Ctx) -> R {
    let version = *src.pick(versions());
    let code = src.range(100, 999) as u16;
    let r = reason(src);
    let mut line = format!("{} {} ", version, code).into_bytes();
    line.extend_from_slice(&r);
    let list = headers(src, 4, &[]);
    let end: &[u8] = if src.bool() { b"\r\n" } else { b"\n" };
    let mut w = line;
    w.extend_from_slice(end);
    for (n, v) in &list {
        w.extend_from_slice(n.as_bytes());
        w.extend_from_slice(b": ");
        w.extend_from_slice(v);
        w.extend_from_slice(end);
    }
    w.extend_from_slice(end);
    let head = w.len();
    let body = body_bytes(src);
    w.extend_from_slice(&body);
    ctx.bytes("wire", &w);
    ctx.nontrivial(r != b"OK");
    ctx.class_if(r.is_empty(), "empty reason");
    ctx.class_if(r.iter().any(|b| *b >= 0x80), "non-ASCII reason");
    let mut back = Response::new(());
    let n = back.parse(&w).map_err(|e| format!("status line refused: {:?}", e))?;
    same!("consumed", n, head);
    same!("status", back.status().as_u16(), code);
    same!("version", back.version(), version_of(version));
    let got = map_list(back.headers());
    ensure!(same_headers(&got, &list), "headers: got {}, expected {}", show_headers(&got), show_headers(&list));
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "random responses (every registered status, 4 versions, 0-9 distinct headers of arbitrary bytes, arbitrary bodies) serialised through 4 routes and parsed; and wire status lines with any code 100-999 and any reason phrase (empty, tabs, UTF-8, arbitrary obs-text); a share of the cases has hundreds of headers or values and bodies of up to some MiB. Non-trivial: a header or body is present / the phrase is not 'OK'.",
        assumptions: &["header names are RFC 7230 tokens"],
        subs: vec![
            sub("response_roundtrip", Kind::Random(25_000), response_roundtrip),
            sub("response_any_reason", Kind::Random(25_000), response_any_reason),
            sub("large", Kind::Random(200), |s, c| {
                s.arm(22);
                response_roundtrip(s, c)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C03
#[derive(Debug, PartialEq)]
enum Outcome {
    Done(usize),
    Partial,
    Bad,
}

/// What a parsed message looks like from outside.
fn observe_req(r: &Request<()>) -> String {
    format!(
        "{:?} {:?} {:?} [{}]",
        r.method(),
        r.version(),
        r.url(),
        show_headers(&map_list(r.headers()))
    )
}
fn observe_res(r: &Response<()>) -> String {
    format!("{:?} {:?} [{}]", r.version(), r.status(), show_headers(&map_list(r.headers())))
}

fn outcome(r: webparse::WebResult<usize>) -> Outcome {
    match r {
        Ok(n) => Outcome::Done(n),
        Err(e) if e.is_partial() => Outcome::Partial,
        Err(_) => Outcome::Bad,
    }
}

fn parse_req(obj: &mut Request<()>, how: u64, b: &[u8]) -> (Outcome, usize) {
    let len = b.len();
    match how {
        0 => {
            let r = outcome(obj.parse(b));
            let left = if let Outcome::Done(n) = r { len - n } else { len };
            (r, left)
        }
        1 => {
            let mut x = b;
            let r = outcome(obj.parse_buffer(&mut x));
            (r, x.len())
        }
        2 => {
            let mut x = Binary::from(b.to_vec());
            let r = outcome(obj.parse_buffer(&mut x));
            (r, x.remaining())
        }
        3 => {
            // a buffer whose read cursor is not at its start
            let mut v = b"junk".to_vec();
            v.extend_from_slice(b);
            let mut x = BinaryMut::from(v);
            x.advance(4);
            let r = outcome(obj.parse_buffer(&mut x));
            (r, x.remaining())
        }
        4 => {
            let mut x = BinaryRef::from(b);
            let r = outcome(obj.parse_buffer(&mut x));
            (r, x.remaining())
        }
        5 => {
            let mut x = std::io::Cursor::new(b);
            let r = outcome(obj.parse_buffer(&mut x));
            (r, Bt::remaining(&x))
        }
        _ => {
            let mut x = Metered::new(b);
            let r = outcome(obj.parse_buffer(&mut x));
            let left = x.data.len();
            (r, left)
        }
    }
}
fn parse_res(obj: &mut Response<()>, how: u64, b: &[u8]) -> (Outcome, usize) {
    let len = b.len();
    match how {
        0 => {
            let r = outcome(obj.parse(b));
            let left = if let Outcome::Done(n) = r { len - n } else { len };
            (r, left)
        }
        1 => {
            let mut x = b;
            let r = outcome(obj.parse_buffer(&mut x));
            (r, x.len())
        }
        2 => {
            let mut x = Binary::from(b.to_vec());
            let r = outcome(obj.parse_buffer(&mut x));
            (r, x.remaining())
        }
        3 => {
            let mut v = b"junk".to_vec();
            v.extend_from_slice(b);
            let mut x = BinaryMut::from(v);
            x.advance(4);
            let r = outcome(obj.parse_buffer(&mut x));
            (r, x.remaining())
        }
        4 => {
            let mut x = BinaryRef::from(b);
            let r = outcome(obj.parse_buffer(&mut x));
            (r, x.remaining())
        }
        5 => {
            let mut x = std::io::Cursor::new(b);
            let r = outcome(obj.parse_buffer(&mut x));
            (r, Bt::remaining(&x))
        }
        _ => {
            let mut x = Metered::new(b);
            let r = outcome(obj.parse_buffer(&mut x));
            let left = x.data.len();
            (r, left)
        }
    }
}

/// An object that may have parsed something before.
fn used_request(src: &mut Src, ctx: &mut Ctx) -> Request<()> {
    let mut r = Request::new();
    if src.bool() {
        let mut w = wire_request(src);
        match src.upto(2) {
            0 => {}
            1 => {
                let n = src.below(w.bytes.len());
                w.bytes.truncate(n);
            }
            _ => mutate(src, &mut w.bytes),
        }
        ctx.bytes("earlier", &w.bytes);
        ctx.class("reused object");
        let _ = r.parse(&w.bytes);
    }
    r
}
fn used_response(src: &mut Src, ctx: &mut Ctx) -> Response<()> {
    let mut r = Response::new(());
    if src.bool() {
        let mut w = wire_response(src);
        match src.upto(2) {
            0 => {}
            1 => {
                let n = src.below(w.bytes.len());
                w.bytes.truncate(n);
            }
            _ => mutate(src, &mut w.bytes),
        }
        ctx.bytes("earlier", &w.bytes);
        ctx.class("reused object");
        let _ = r.parse(&w.bytes);
    }
    r
}

/// The prefixes of a text to try: all of a short one; of a long one those at
/// both ends and some others.
fn prefixes(src: &mut Src, n: usize) -> Vec<usize> {
    if n <= 2500 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..150).chain(n - 150..n).collect();
    for _ in 0..60 {
        v.push(src.upto(n as u64 - 1) as usize);
    }
    v
}

fn boundary(src: &mut Src, ctx: &mut Ctx) -> R {
    let request = src.bool();
    let w = if request { wire_request(src) } else { wire_response(src) };
    let trailing = if src.chance(1, 10) {
        // a round number of octets is left behind some place in the head
        let left = w.bytes.len() - src.below(w.bytes.len());
        let round = 1usize << src.range(6, 13);
        src.bulk((left / round + 1) * round - left)
    } else {
        body_bytes(src)
    };
    ctx.bytes("head", &w.bytes);
    ctx.bytes("trailing", &trailing);
    ctx.class(if request { "request" } else { "response" });
    ctx.class_if(w.ends.iter().any(|e| *e == b"\n"), "bare LF");
    ctx.class_if(!w.lead.is_empty(), "leading empty line");
    ctx.nontrivial(w.lines.len() > 1);
    let mut all = w.bytes.clone();
    all.extend_from_slice(&trailing);
    let n = w.bytes.len();
    if request {
        for k in prefixes(src, n) {
            let mut r = Request::new();
            let o = outcome(r.parse(&w.bytes[..k]));
            ensure!(o == Outcome::Partial, "prefix of {} of {} bytes: {:?}, expected incomplete", k, n, o);
            ensure!(r.is_partial(), "is_partial() is false after an incomplete head");
        }
        for how in 0..7 {
            // a few prefixes from every buffer type, into an object used before
            let k = src.below(n);
            let mut r = used_request(src, ctx);
            let (o, _) = parse_req(&mut r, how, &w.bytes[..k]);
            ensure!(o == Outcome::Partial, "buffer type {}: prefix of {} of {} bytes: {:?}, expected incomplete", how, k, n, o);
            ensure!(r.is_partial(), "buffer type {}: is_partial() is false after an incomplete head", how);
            let mut r = Request::new();
            let (o, _) = parse_req(&mut r, how, &w.bytes[..k]);
            ensure!(o == Outcome::Partial && r.is_partial(), "buffer type {}: prefix of {} of {} bytes into a new object: {:?}, partial {}", how, k, n, o, r.is_partial());
        }
        let mut want = None;
        for how in 0..7 {
            let mut r = used_request(src, ctx);
            let (o, left) = parse_req(&mut r, how, &all);
            ensure!(o == Outcome::Done(n), "buffer type {}: {:?}, expected Done({})", how, o, n);
            ensure!(left == trailing.len(), "buffer type {}: {} bytes left, expected {}", how, left, trailing.len());
            ensure!(r.is_complete(), "is_complete() is false after a whole head");
            let obs = observe_req(&r);
            let got = map_list(r.headers());
            ensure!(same_headers(&got, &w.headers), "buffer type {}: headers {}", how, show_headers(&got));
            match &want {
                None => want = Some(obs),
                Some(x) => same!("result depends on the buffer type or on earlier use of the object", &obs, x),
            }
        }
    } else {
        for k in prefixes(src, n) {
            let mut r = Response::new(());
            let o = outcome(r.parse(&w.bytes[..k]));
            ensure!(o == Outcome::Partial, "prefix of {} of {} bytes: {:?}, expected incomplete", k, n, o);
            ensure!(r.is_partial(), "is_partial() is false after an incomplete head");
        }
        for how in 0..7 {
            // a few prefixes from every buffer type, into an object used before
            let k = src.below(n);
            let mut r = used_response(src, ctx);
            let (o, _) = parse_res(&mut r, how, &w.bytes[..k]);
            ensure!(o == Outcome::Partial, "buffer type {}: prefix of {} of {} bytes: {:?}, expected incomplete", how, k, n, o);
            ensure!(r.is_partial(), "buffer type {}: is_partial() is false after an incomplete head", how);
            let mut r = Response::new(());
            let (o, _) = parse_res(&mut r, how, &w.bytes[..k]);
            ensure!(o == Outcome::Partial && r.is_partial(), "buffer type {}: prefix of {} of {} bytes into a new object: {:?}, partial {}", how, k, n, o, r.is_partial());
        }
        let mut want = None;
        for how in 0..7 {
            let mut r = used_response(src, ctx);
            let (o, left) = parse_res(&mut r, how, &all);
            ensure!(o == Outcome::Done(n), "buffer type {}: {:?}, expected Done({})", how, o, n);
            ensure!(left == trailing.len(), "buffer type {}: {} bytes left, expected {}", how, left, trailing.len());
            ensure!(!r.is_partial(), "is_partial() is true after a whole head");
            let obs = observe_res(&r);
            let got = map_list(r.headers());
            ensure!(same_headers(&got, &w.headers), "buffer type {}: headers {}", how, show_headers(&got));
            match &want {
                None => want = Some(obs),
                Some(x) => same!("result depends on the buffer type or on earlier use of the object", &obs, x),
            }
        }
    }
    Ok(())
}

fn ctl(src: &mut Src) -> u8 {
    *src.pick(&[0u8, 1, 8, 0x0b, 0x1f, 0x7f])
}

fn violate_header(src: &mut Src, w: &mut Wire) -> &'static str {
    let at = 1 + src.below(w.lines.len());
    let (what, line): (&'static str, Vec<u8>) = match src.upto(6) {
        0 => ("no colon", hname(src).into_bytes()),
        1 => {
            let mut v = b": ".to_vec();
            v.extend(hvalue(src));
            ("empty name", v)
        }
        2 => {
            let mut v = hname(src).into_bytes();
            let i = src.below(v.len() + 1);
            let bad = *src.pick(&[b'(', b')', b',', b'/', b';', b'<', b'=', b'>', b'?', b'@', b'[', b'\\', b']', b'{', b'}', b'"', 0x80, 0xff]);
            v.insert(i, bad);
            v.extend_from_slice(b": x");
            ("bad byte in name", v)
        }
        3 => {
            let mut v = hname(src).into_bytes();
            let i = src.below(v.len() + 1);
            v.insert(i, ctl(src));
            v.extend_from_slice(b": x");
            ("control byte in name", v)
        }
        4 => {
            let mut v = hname(src).into_bytes();
            v.extend_from_slice(b" x: y");
            ("space in name", v)
        }
        5 => {
            let mut v = hname(src).into_bytes();
            v.extend_from_slice(b": a\r");
            v.push(*src.pick(b"bc :\r\0"));
            v.extend_from_slice(b"z");
            ("bare CR in value", v)
        }
        _ => {
            let mut v = hname(src).into_bytes();
            v.extend_from_slice(b":\rx");
            ("bare CR before value", v)
        }
    };
    w.lines.insert(at, line);
    what
}

/// A host with something after it that is no port.
fn bad_authority(src: &mut Src) -> String {
    let h = host(src);
    match src.upto(4) {
        0 => format!("{}:", h),
        1 => {
            let mut p = port(src).to_string();
            let i = src.upto(p.len() as u64) as usize;
            p.insert(i, *src.pick(&['a', 'f', 'x', 'o', 'Z', '-', '.', '_', ',']));
            format!("{}:{}", h, p)
        }
        2 if src.bool() => format!("{}:{}", h, 65536 + src.scaled(63)),
        2 => {
            let n = src.range(1, 30) as usize;
            format!("{}:{}{}", h, port(src).max(1), "0".repeat(4 + n))
        }
        3 => format!("{}:-{}", h, port(src)),
        _ => {
            let mut s = h;
            for _ in 0..src.range(2, 4) {
                s.push(':');
                match src.upto(2) {
                    0 => {}
                    1 => s.push_str(&port(src).to_string()),
                    _ => s.push_str(&host(src)),
                }
            }
            s
        }
    }
}
fn malformed(src: &mut Src, ctx: &mut Ctx) -> R {
    let request = src.bool();
    let mut w = if request { wire_request(src) } else { wire_response(src) };
    // uniform line ends so that inserting lines keeps the head complete
    let end = w.ends[0];
    w.ends = vec![end];
    let what: &'static str;
    let mut tail_break = false;
    if request {
        let version = *src.pick(versions());
        let t = "/x?y".to_string();
        match src.upto(9) {
            0 => {
                let m = match src.upto(4) {
                    0 => src.pick(&["get", "Get", "GETX", "GE", "FOO", "None", "PRI", "LOCK"]).to_string(),
                    1 => "\u{80}GET".to_string(),
                    2 => {
                        let m = *src.pick(methods());
                        let mut s = m.to_string();
                        let i = src.below(s.len());
                        let c = s.remove(i);
                        s.insert(i, c.to_ascii_lowercase());
                        s
                    }
                    3 => {
                        let m = *src.pick(methods());
                        format!("{}{}", m, src.pick(&["!", "A", "0", "_", ":"]))
                    }
                    _ => String::new(),
                };
                w.lines[0] = format!("{} {} {}", m, t, version).into_bytes();
                what = "bad method";
            }
            1 => {
                let v = match src.upto(2) {
                    0 => src.pick(&["HTTP/1.2", "HTTP/1", "http/1.1", "HTTP/0.9", "HTTP/11", "HTTP/1.1.", "HTTP", "HTTP/1.10", "HTTP/2.1", "HTTP/", "XTTP/1.1", "HTTP/4", "None", "Http/1.0", "HTTP1.1"]).to_string(),
                    1 => format!("{}{}", version, src.pick(&["x", "/", "0", ".", "\u{1}"])),
                    _ => {
                        let mut s = version.to_string();
                        let i = src.below(s.len());
                        s.remove(i);
                        if versions().contains(&s.as_str()) {
                            s.push('9');
                        }
                        s
                    }
                };
                w.lines[0] = format!("GET {} {}", t, v).into_bytes();
                what = "bad version";
            }
            2 => {
                w.lines[0] = format!("GET {} {}{}", t, version, src.pick(&[" x", "\tx", " HTTP/1.1", "  /"])).into_bytes();
                what = "junk after version";
            }
            3 => {
                w.lines[0] = format!("GET {}", version).into_bytes();
                what = "no target";
            }
            4 => {
                w.lines[0] = format!("GET {}", t).into_bytes();
                what = "no version";
            }
            5 => {
                let mut l = b"GET /a".to_vec();
                match src.upto(2) {
                    0 => l.push(ctl(src)),
                    1 => l.push(0x80 + src.upto(0x7f) as u8),
                    _ => l.push(b'\t'),
                }
                l.extend_from_slice(format!("b {}", version).as_bytes());
                w.lines[0] = l;
                what = "bad byte in target";
            }
            6 => {
                let bad = src.pick(&["/%", "/%2", "/%zz", "/a%4", "/a?%", "/a?b%g0", "/%ff", "abc", "h", "http:", "http:/", "http:/a/b", "http//a/", "http://a:b/", "http://a:65536/", "http://a:80:80/", "http://a@b/", "?x", ":", "a:b", "http://a:-1/", "-", "http://a:%"]).to_string();
                let bad = if src.bool() { bad } else { format!("http://{}{}", bad_authority(src), src.pick(&["", "/", "/a", "?q"])) };
                w.lines[0] = format!("GET {} {}", bad, version).into_bytes();
                what = "bad target";
            }
            7 => {
                let bad = src.pick(&["a:b", "a:65536", "a:1:2", "a:", "a:-1", "a:99999999999", "a: 80", "a:8o"]).to_string();
                let bad = if src.bool() { bad } else { bad_authority(src) };
                w.lines[0] = format!("GET {} {}", t, version).into_bytes();
                w.lines.retain(|l| l.len() < 5 || !l[..5].eq_ignore_ascii_case(b"host:"));
                w.lines.push(format!("Host: {}", bad).into_bytes());
                what = "bad Host";
            }
            8 => {
                let bad = src.pick(&["a:b", "a:65536", "a:1:2", "a:", "a:-1"]).to_string();
                let bad = if src.bool() { bad } else { bad_authority(src) };
                w.lines[0] = format!("CONNECT {} {}", bad, version).into_bytes();
                what = "bad CONNECT target";
            }
            _ => {
                if src.bool() {
                    what = violate_header(src, &mut w);
                } else if src.chance(1, 3) {
                    // what stands between a CR and the LF that ends a line
                    let i = src.below(w.lines.len());
                    let extra: &[u8] = if end.len() == 2 { *src.pick(&[&b"\r"[..], b"\r\r", b"\r ", b"\r\t"]) } else { *src.pick(&[&b"\r\r"[..], b"\r ", b"\r\0", b"\r\t"]) };
                    w.lines[i].extend_from_slice(extra);
                    what = "CR before the end of a line";
                } else if src.bool() {
                    // empty lines before the start line, one of them broken
                    w.lead = src.pick(&[&b"\r"[..], b"\r\r\n", b"\r\n\r", b"\n\r", b"\r\r"]).to_vec();
                    what = "CR without LF before the start line";
                } else {
                    tail_break = true;
                    what = "CR without LF at the end of the head";
                }
            }
        }
    } else {
        let version = *src.pick(versions());
        match src.upto(4) {
            0 => {
                let bad = *src.pick(&["HTTP/1.2", "http/1.1", "HTTP/1", "HTTP/", "HTTP/1.1x", "200", "ICY"]);
                w.lines[0] = format!("{} 200 OK", bad).into_bytes();
                what = "bad version";
            }
            1 => {
                let bad = match src.upto(1) {
                    0 => src.pick(&["20", "2000", "2", "abc", "2x0", "0", "099", "000", "1e2", "+20", "-20", "20-", "0x1", "99", "1000", "02000"]).to_string(),
                    _ => {
                        let mut d: Vec<u8> = src.range(100, 999).to_string().into_bytes();
                        let i = src.below(3);
                        d[i] = *src.pick(b"abzAZ!/:-+.;");
                        String::from_utf8(d).unwrap()
                    }
                };
                w.lines[0] = format!("{} {} OK", version, bad).into_bytes();
                what = "bad status";
            }
            2 => {
                let mut l = format!("{} 200 O", version).into_bytes();
                l.push(ctl(src));
                l.push(b'K');
                w.lines[0] = l;
                what = "control byte in reason";
            }
            3 => {
                w.lines[0] = version.as_bytes().to_vec();
                what = "no status";
            }
            _ => {
                if src.bool() {
                    what = violate_header(src, &mut w);
                } else if src.chance(1, 3) {
                    // what stands between a CR and the LF that ends a line
                    let i = src.below(w.lines.len());
                    let extra: &[u8] = if end.len() == 2 { *src.pick(&[&b"\r"[..], b"\r\r", b"\r ", b"\r\t"]) } else { *src.pick(&[&b"\r\r"[..], b"\r ", b"\r\0", b"\r\t"]) };
                    w.lines[i].extend_from_slice(extra);
                    what = "CR before the end of a line";
                } else if src.bool() {
                    // empty lines before the start line, one of them broken
                    w.lead = src.pick(&[&b"\r"[..], b"\r\r\n", b"\r\n\r", b"\n\r", b"\r\r"]).to_vec();
                    what = "CR without LF before the start line";
                } else {
                    tail_break = true;
                    what = "CR without LF at the end of the head";
                }
            }
        }
    }
    w.assemble();
    if tail_break {
        let n = w.bytes.len() - end.len();
        w.bytes.truncate(n);
        w.bytes.extend_from_slice(b"\rx\r\n\r\n");
    }
    w.bytes.extend_from_slice(*src.pick(&[&b""[..], b"body", b"\r\n\r\n"]));
    ctx.input("violation", &what);
    ctx.bytes("head", &w.bytes);
    ctx.class(what);
    ctx.nontrivial(true);
    for how in [0u64, 1, 4] {
        let o = if request {
            parse_req(&mut Request::new(), how, &w.bytes).0
        } else {
            parse_res(&mut Response::new(()), how, &w.bytes).0
        };
        ensure!(o == Outcome::Bad, "{}: {:?}, expected rejection (not 'incomplete')", what, o);
    }
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "random well-formed request/response heads (CRLF, LF and mixed line ends, leading empty lines, absolute/origin/CONNECT targets), every strict prefix of each, then the whole head plus trailing bytes through 7 buffer types into fresh or previously used objects; and complete heads with one of ~20 kinds of grammar violation. Non-trivial: at least one header line, or a violation.",
        assumptions: &["obs-fold is outside the generated grammar"],
        subs: vec![
            sub("boundary", Kind::Random(4_000), boundary),
            sub("malformed", Kind::Random(60_000), malformed),
        ],
    }
}

// ------------------------------------------------------------------ C04
fn hostile(src: &mut Src, ctx: &mut Ctx, base: Vec<u8>) -> Vec<u8> {
    let mut v = match src.upto(5) {
        0 => {
            ctx.class("random bytes");
            src.bytes(200)
        }
        1 => {
            ctx.class("grammar alphabet");
            let n = src.size(120);
            (0..n)
                .map(|_| *src.pick(b"GETHP/1.0 :\r\n%/?@abf0129-+.\t\x00\x7f\x80\xff&=#[]"))
                .collect()
        }
        2 => {
            ctx.class("well-formed");
            base
        }
        _ => {
            ctx.class("damaged");
            let mut b = base;
            mutate(src, &mut b);
            b
        }
    };
    if src.chance(1, 50) && !v.is_empty() {
        // a long repetition
        let i = src.below(v.len());
        let j = (i + 1 + src.below(4)).min(v.len());
        let unit = v[i..j].to_vec();
        let n = src.upto(2000);
        let mut big = Vec::new();
        for _ in 0..n {
            big.extend_from_slice(&unit);
        }
        v.splice(i..i, big);
        ctx.class("long repetition");
    }
    v
}

/// Runs `f` and checks that it allocated in proportion to the input.
pub fn bounded<T>(len: usize, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let a = allocated();
    let r = f();
    let used = allocated().wrapping_sub(a);
    let limit = 4096 * len as u64 + (1 << 20);
    ensure!(used <= limit, "{} allocated {} bytes for {} bytes of input", what, used, len);
    Ok(r)
}

/// Grows an input to four times its length: what `run` allocates may grow
/// eightfold at most (linear work with slack), and a little in any case.
pub fn linear(what: &str, ctx: &mut Ctx, k: usize, make: impl Fn(usize) -> Vec<u8>, run: impl Fn(&[u8])) -> R {
    let (small, large) = (make(k), make(4 * k));
    ctx.input("units", &(k, 4 * k));
    ctx.input("bytes", &(small.len(), large.len()));
    ctx.bytes("small input", &small[..small.len().min(400)]);
    let cost = |b: &[u8]| {
        let a = allocated();
        run(b);
        allocated().wrapping_sub(a)
    };
    cost(&small);
    let (a, b) = (cost(&small), cost(&large));
    ensure!(
        b <= 8 * a + (64 << 10),
        "{}: {} bytes allocated for {} bytes of input, {} bytes for {} bytes of input",
        what,
        a,
        small.len(),
        b,
        large.len()
    );
    Ok(())
}

/// Parsing and using four times the input costs about four times the memory.
fn growth(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = src.range(50, 300) as usize;
    let (lead, unit, tail): (String, Box<dyn Fn(usize) -> String>, &str) = match src.upto(9) {
        0 => ("".into(), Box::new(|i| format!("X-Name-{}: value {}\r\n", i, i)), "\r\n"),
        1 => ("".into(), Box::new(|i| format!("n{}:\r\n", i)), "\r\n"),
        2 => ("X: ".into(), Box::new(|_| "some value; ".into()), "\r\n\r\n"),
        3 => ("X:".into(), Box::new(|_| "          ".into()), "x\r\n\r\n"),
        4 => ("".into(), Box::new(|_| "long-name".into()), ": x\r\n\r\n"),
        5 => ("".into(), Box::new(|_| "Same: header\r\n".into()), "\r\n"),
        6 => ("Cookie: ".into(), Box::new(|i| format!("k{}=v; ", i)), "\r\n\r\n"),
        7 => ("Connection: upgrade\r\nUpgrade: ".into(), Box::new(|_| "websocket, ".into()), "\r\n\r\n"),
        8 => ("Host: ".into(), Box::new(|_| "abc:80:".into()), "\r\n\r\n"),
        _ => ("Content-Length: ".into(), Box::new(|_| "0000000000".into()), "\r\n\r\n"),
    };
    let place = src.upto(5);
    let make = |k: usize| {
        let mut s = match place {
            0 => "GET / HTTP/1.1\r\n".to_string(),
            1 => "HTTP/1.1 200 OK\r\n".to_string(),
            2 => {
                let mut s = String::from("GET /");
                (0..k).for_each(|i| s.push_str(&format!("seg{}/", i)));
                s.push_str("?a=b HTTP/1.1\r\n\r\n");
                return s.into_bytes();
            }
            3 => {
                let mut s = String::from("GET http://u:p@host.org:81/");
                (0..k).for_each(|_| s.push_str("%e4%bd%a0a"));
                s.push('?');
                (0..k).for_each(|i| s.push_str(&format!("k{}=%20?&", i)));
                s.push_str(" HTTP/1.1\r\n\r\n");
                return s.into_bytes();
            }
            4 => {
                let mut s = String::from("HTTP/1.1 404 ");
                (0..k).for_each(|_| s.push_str("Not here "));
                s.push_str("\r\n\r\n");
                return s.into_bytes();
            }
            _ => {
                let mut s = "0".repeat(4 * k);
                s.push_str(&format!("{:x}\r\n", k));
                s.push_str(&"d".repeat(k));
                s.push_str("\r\n");
                return s.into_bytes();
            }
        };
        s.push_str(&lead);
        (0..k).for_each(|i| s.push_str(&unit(i)));
        s.push_str(tail);
        s.into_bytes()
    };
    ctx.class(match place {
        0 | 1 => "headers",
        2 | 3 => "target",
        4 => "reason",
        _ => "chunk",
    });
    ctx.nontrivial(true);
    let what = if place == 1 || place == 4 { "response" } else { "request" };
    linear(what, ctx, k, make, |b| match place {
        1 | 4 => {
            let mut r = Response::new(());
            let _ = r.parse(b);
            let _ = r.httpdata();
            let _ = format!("{:?}", r);
        }
        5 => {
            let _ = Helper::parse_chunk_data(&mut BinaryMut::from(b.to_vec()));
        }
        _ => {
            let mut r = Request::new();
            let _ = r.parse(b);
            touch_request(&mut r);
        }
    })
}

fn touch_request(r: &mut Request<()>) {
    let _ = (r.get_host(), r.get_referer(), r.get_user_agent(), r.get_cookie(), r.get_connect_url());
    let _ = (r.get_body_len(), r.get_authority(), r.get_scheme(), r.is_keep_alive());
    let _ = (r.headers().is_chunked(), r.headers().get_upgrade_protocol(), r.headers().len());
    for (n, v) in r.headers().iter() {
        let _ = (n.to_string(), v.to_string(), v.as_string(), n.is_spec(), n.bytes_len(), v.bytes_len());
        let a: Result<usize, _> = v.try_into();
        let b: Result<isize, _> = v.try_into();
        let c: Result<String, _> = v.try_into();
        let _ = (a.is_ok(), b.is_ok(), c.is_ok());
    }
    let _ = format!("{}", r.url());
    let _ = format!("{:?}", r);
    let _ = format!("{}", r.replace_clone(()).into("").0);
    let _ = r.http1_data();
}

/// Puts a header that decides how a message is handled, with a value at or
/// beyond the edge of what it may hold, behind the first line.
fn loaded(src: &mut Src, ctx: &mut Ctx, mut b: Vec<u8>) -> Vec<u8> {
    if !src.chance(1, 4) {
        return b;
    }
    let Some(at) = b.windows(2).position(|w| w == b"\r\n") else {
        return b;
    };
    ctx.class("loaded header");
    let name = *src.pick(&[
        "Content-Length", "content-length", "Host", "Transfer-Encoding", "Connection", "Upgrade", "Expect", "Range", "Content-Range",
        "Keep-Alive", "Max-Forwards", "Age", "Retry-After", "Content-Encoding", "HTTP2-Settings", "Sec-WebSocket-Key", "TE", "Trailer",
    ]);
    let value = match src.upto(4) {
        0 | 1 => {
            // a number at an edge of some integer type, or close to it
            let k = *src.pick(&[63u32, 64, 31, 32, 40, 48, 62, 16, 127]);
            let n = (1i128 << k.min(126)) - 1 + src.upto(2) as i128 - src.scaled(12) as i128;
            let sign = if src.chance(1, 5) { "-" } else { "" };
            format!("{}{}", sign, n)
        }
        2 => format!("{}{}", src.scaled(50), src.pick(&["", "0000000000000", " ", "a", ", 1", "-"])),
        3 => format!("bytes={}-{}", src.scaled(64), src.scaled(64)),
        _ => {
            let t = *src.pick(&["chunked", "close", "Upgrade", "h2c", "a:99999", "[::1", ":", "@", "a:b:c", "%", "100-continue"]);
            t.to_string()
        }
    };
    let line = format!("\r\n{}: {}", name, value);
    b.splice(at..at, line.into_bytes());
    b
}
fn raw_request(src: &mut Src, ctx: &mut Ctx) -> R {
    let base = wire_request(src).bytes;
    let base = loaded(src, ctx, base);
    let v = hostile(src, ctx, base);
    ctx.bytes("input", &v);
    let mut r = Request::new();
    let ok = bounded(v.len(), "parsing a request", || r.parse(&v).map_err(told))?;
    ctx.class_if(ok.is_ok(), "accepted");
    ctx.nontrivial(v.len() >= 4);
    if let Ok(n) = ok {
        ensure!(n <= v.len(), "consumed {} of {} bytes", n, v.len());
    }
    bounded(v.len(), "using a parsed request", || touch_request(&mut r))?;
    let mut m = Metered::new(&v);
    let _ = Request::new().parse_buffer(&mut m);
    // reuse after failure
    let _ = r.parse(&v);
    touch_request(&mut r);
    Ok(())
}
fn raw_response(src: &mut Src, ctx: &mut Ctx) -> R {
    let base = wire_response(src).bytes;
    let base = loaded(src, ctx, base);
    let v = hostile(src, ctx, base);
    ctx.bytes("input", &v);
    ctx.nontrivial(v.len() >= 4);
    let mut r = Response::new(());
    let ok = bounded(v.len(), "parsing a response", || r.parse(&v).map_err(told))?;
    ctx.class_if(ok.is_ok(), "accepted");
    if let Ok(n) = ok {
        ensure!(n <= v.len(), "consumed {} of {} bytes", n, v.len());
    }
    bounded(v.len(), "using a parsed response", || {
        let _ = (r.get_body_len(), r.status().as_u16(), r.headers().is_keep_alive(), r.headers().is_chunked());
        let _ = (r.headers().get_upgrade_protocol(), format!("{:?}", r), r.status().to_string(), r.status().as_str());
        for (_, v) in r.headers().iter() {
            let a: Result<usize, _> = v.try_into();
            let b: Result<isize, _> = v.try_into();
            let _ = (a.is_ok(), b.is_ok());
        }
        let _ = format!("{}", r.replace_clone(()).into("").0);
        let _ = r.httpdata();
    })?;
    let mut m = Metered::new(&v);
    let _ = Response::new(()).parse_buffer(&mut m);
    Ok(())
}
fn raw_url(src: &mut Src, ctx: &mut Ctx) -> R {
    let base = if src.bool() {
        let mut s = String::new();
        if src.bool() {
            let (a, b) = (text(src, 6), text(src, 6));
            s = format!("{}://", src.pick(&["http", "https", "ftp", "wss", "foo+bar-1.x"]));
            if src.bool() {
                s.push_str(&format!("{}:{}@", pct(src, a.as_bytes(), unreserved), pct(src, b.as_bytes(), unreserved)));
            }
            s.push_str(&host(src));
            if src.bool() {
                s.push_str(&format!(":{}", port(src)));
            }
        }
        s.push_str(&target(src));
        s.into_bytes()
    } else {
        target(src).into_bytes()
    };
    let v = hostile(src, ctx, base);
    ctx.bytes("input", &v);
    ctx.nontrivial(v.len() >= 2);
    let u = bounded(v.len(), "parsing a URL", || Url::parse(v.clone()).map_err(told))?;
    ctx.class_if(u.is_ok(), "accepted");
    if let Ok(u) = u {
        let _ = (u.to_string(), u.get_authority(), u.get_connect_url(), u.get_scheme(), format!("{:?}", u));
        let _ = webparse::http2::frame::Headers::new(
            webparse::http2::frame::FrameHeader::new(webparse::http2::frame::Kind::Headers, Default::default(), 1u32.into()),
            webparse::HeaderMap::new(),
        );
        let mut b = Url::new();
        b.merge(u.clone());
        let _ = b.to_string();
        let req = Request::builder().url(u).body(());
        if let Ok(mut r) = req {
            touch_request(&mut r);
        }
    }
    if let Ok(s) = std::str::from_utf8(&v) {
        let _ = s.parse::<Url>().is_ok();
        let _ = Url::try_from(s).is_ok();
    }
    Ok(())
}
fn raw_pct(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(60);
    let s: String = (0..n)
        .map(|_| match src.upto(3) {
            0 => '%',
            1 => *src.pick(b"0123456789abcdefABCDEFgG-+ ") as char,
            2 => char::from_u32(src.upto(0x2ff) as u32).unwrap_or('x'),
            _ => *src.pick(&['é', '\u{10ffff}', '日', 'a', '%']),
        })
        .collect();
    ctx.input("text", &s);
    ctx.nontrivial(s.contains('%'));
    let d = bounded(s.len(), "url_decode", || Url::url_decode(&s).map_err(told))?;
    ctx.class_if(d.is_ok(), "decoded");
    if let Ok(d) = d {
        let e = Url::url_encode(&d);
        let _ = Url::url_decode(&e);
    }
    let _ = Url::url_encode(&s);
    Ok(())
}
fn raw_chunk(src: &mut Src, ctx: &mut Ctx) -> R {
    let data = src.bytes(40);
    let mut base = match src.upto(4) {
        0 => format!("{:x}\r\n", data.len()),
        1 => format!("{:x}\r\n", src.scaled(64)),
        2 => {
            let n = src.range(1, 40) as usize;
            let mut s: String = (0..n).map(|_| *src.pick(b"0123456789abcdefABCDEF") as char).collect();
            s.push_str("\r\n");
            s
        }
        3 => format!("{}\r\n", src.pick(&["ffffffffffffffff", "fffffffffffffffe", "fffffffffffffffd", "10000000000000000", "ffffffffffffffffffff", "8000000000000000", "7fffffffffffffff", "-1", "+1"])),
        _ => format!("{:X}\n", data.len()),
    }
    .into_bytes();
    base.extend_from_slice(&data);
    base.extend_from_slice(b"\r\n");
    let v = hostile(src, ctx, base);
    ctx.bytes("input", &v);
    ctx.nontrivial(v.len() >= 2);
    let mut b = BinaryMut::from(v.clone());
    let r = bounded(v.len(), "parsing a chunk", || Helper::parse_chunk_data(&mut b).map_err(told))?;
    if let Ok((h, n)) = r {
        ctx.class("accepted");
        let end = h.checked_add(n).and_then(|x| x.checked_add(2));
        ensure!(
            end.map(|e| e <= v.len()).unwrap_or(false),
            "reported chunk ({}, {}) does not lie within the {} bytes given",
            h,
            n,
            v.len()
        );
    }
    let mut m = Metered::new(&v);
    let _ = Helper::parse_chunk_data(&mut m);
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "random bytes, bytes over the grammar's alphabet, well-formed inputs and damaged well-formed inputs (bit flips, insertions, deletions, truncation, block copies, long repetitions) given to the request, response, URL, percent-decoding and chunk parsers, whose results are then used through every accessor and re-serialised; any panic, overflow, abort, CPU overrun, out-of-proportion allocation or number of buffer accesses is a violation. Non-trivial: at least 2-4 bytes of input.",
        assumptions: &["overflow checks and debug assertions are compiled in"],
        subs: vec![
            sub("raw_request", Kind::Random(60_000), raw_request),
            sub("raw_response", Kind::Random(50_000), raw_response),
            sub("raw_url", Kind::Random(80_000), raw_url),
            sub("raw_pct", Kind::Random(40_000), raw_pct),
            sub("raw_chunk", Kind::Random(60_000), raw_chunk),
            sub("growth", Kind::Random(1_500), growth),
        ],
    }
}

// ------------------------------------------------------------------ C07
pub fn chunk_data(src: &mut Src) -> Vec<u8> {
    if let Some(n) = src.large(1 << 24) {
        return src.bulk(n);
    }
    match src.upto(5) {
        0 => Vec::new(),
        1 => src.bytes(20),
        2 => src.pick(&[&b"\r\n"[..], b"0\r\n\r\n", b"5\r\nhello\r\n", b"\n"]).to_vec(),
        3 => {
            let n = if src.bool() { *src.pick(&[15usize, 16, 17, 255, 256, 257, 4095, 4096, 65535, 65536]) } else { src.scaled(14) as usize };
            src.bulk(n)
        }
        _ => src.payload(5000),
    }
}

fn chunk_stream(src: &mut Src, ctx: &mut Ctx) -> R {
    let parts = src.list(8, 3, chunk_data);
    let mut buf = BinaryMut::new();
    let mut want = Vec::new();
    for p in &parts {
        let n = Helper::encode_chunk_data(&mut buf, p).map_err(|e| format!("encode failed: {}", e))?;
        let before = want.len();
        want.extend_from_slice(format!("{:x}\r\n", p.len()).as_bytes());
        want.extend_from_slice(p);
        want.extend_from_slice(b"\r\n");
        same!("bytes reported for a chunk", n, want.len() - before);
    }
    let wire = buf.into_slice_all();
    ctx.bytes("wire", &wire);
    ctx.nontrivial(parts.iter().any(|p| !p.is_empty()));
    ctx.class_if(parts.iter().any(|p| p.len() > 4096), "large chunk");
    // independent reading of the chunk format
    let mut pos = 0;
    for p in &parts {
        let eol = wire[pos..].windows(2).position(|w| w == b"\r\n").ok_or("no CRLF after the size")?;
        let size = std::str::from_utf8(&wire[pos..pos + eol])
            .ok()
            .and_then(|s| usize::from_str_radix(s, 16).ok())
            .ok_or_else(|| format!("size line is not hexadecimal: {}", show(&wire[pos..pos + eol])))?;
        same!("chunk size on the wire", size, p.len());
        let d = pos + eol + 2;
        ensure!(wire.len() >= d + size + 2, "chunk is cut short");
        same!("chunk data on the wire", &wire[d..d + size], &p[..]);
        same!("end of chunk on the wire", &wire[d + size..d + size + 2], b"\r\n");
        pos = d + size + 2;
    }
    same!("wire length", pos, wire.len());
    // the library's decoder
    let mut buf = BinaryMut::from(wire);
    for (i, p) in parts.iter().enumerate() {
        let before = buf.remaining();
        let (h, n) = Helper::parse_chunk_data(&mut buf).map_err(|e| format!("chunk {}: {:?}", i, e))?;
        same!("parse_chunk_data moved the buffer", buf.remaining(), before);
        same!("data length", n, p.len());
        ensure!(buf.chunk()[h..h + n] == p[..], "chunk {} data differs", i);
        ensure!(&buf.chunk()[h + n..h + n + 2] == b"\r\n", "chunk {} end differs", i);
        buf.advance(h + n + 2);
    }
    same!("left over", buf.remaining(), 0);
    Ok(())
}

fn chunk_wire(src: &mut Src, ctx: &mut Ctx) -> R {
    let data = src.payload(600);
    let mut size = if src.bool() { format!("{:x}", data.len()) } else { format!("{:X}", data.len()) };
    if src.chance(1, 3) {
        let z = src.range(1, 20) as usize;
        size = format!("{}{}", "0".repeat(z), size);
        ctx.class("leading zeros");
    }
    if src.chance(1, 3) {
        size = size.chars().map(|c| if src.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    }
    let mut w = size.clone().into_bytes();
    w.extend_from_slice(b"\r\n");
    let h = w.len();
    w.extend_from_slice(&data);
    w.extend_from_slice(b"\r\n");
    let full = w.len();
    let tail = body_bytes(src);
    w.extend_from_slice(&tail);
    ctx.bytes("wire", &w);
    ctx.nontrivial(!data.is_empty());
    let mut b = BinaryMut::from(w.clone());
    let r = Helper::parse_chunk_data(&mut b).map_err(|e| format!("well-formed chunk refused: {:?}", e))?;
    same!("(header size, data length)", r, (h, data.len()));
    for k in 0..full {
        if k > 40 && k + 5 < full && k % 37 != 0 {
            continue;
        }
        let mut x = &w[..k];
        match Helper::parse_chunk_data(&mut x) {
            Err(e) if e.is_partial() => {}
            r => return Err(format!("prefix of {} of {} bytes: {:?}, expected incomplete", k, full, r)),
        }
    }
    Ok(())
}

/// The start of a chunk of any size that fits is incomplete.
fn chunk_huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let most = usize::MAX as u64 - 2;
    let n = match src.upto(2) {
        0 => most - src.scaled(40).min(most),
        1 => (1u64 << src.range(20, 63)).saturating_sub(3) + src.upto(6),
        _ => src.scaled(64).min(most),
    };
    let have = src.size(60);
    let n = n.min(most).max(have as u64);
    let mut w = format!("{:x}", n).into_bytes();
    w.extend_from_slice(if src.bool() { b"\r\n" } else { b"\n" });
    w.extend_from_slice(&src.bulk(have));
    ctx.bytes("wire", &w);
    ctx.class_if(n > u32::MAX as u64, "size over 32 bits");
    ctx.nontrivial(true);
    let mut b = &w[..];
    match Helper::parse_chunk_data(&mut b) {
        Err(e) if e.is_partial() => Ok(()),
        r => Err(format!("{} octets of a chunk of {}: {:?}, expected incomplete", have, n, r)),
    }
}

fn chunk_bad(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w: Vec<u8> = Vec::new();
    let digits = src.range(0, 6) as usize;
    for _ in 0..digits {
        w.push(*src.pick(b"0123456789abcdefABCDEF"));
    }
    let what: &'static str = match src.upto(5) {
        0 => {
            let b = loop {
                let b = src.byte();
                if !b.is_ascii_hexdigit() && b != b'\r' && b != b'\n' {
                    break b;
                }
                if src.tape.len() > 5000 {
                    break b'z';
                }
            };
            w.push(b);
            w.extend_from_slice(src.pick(&[&b""[..], b"5", b";a=b", b"\x00"]));
            w.extend_from_slice(b"\r\n");
            "not hexadecimal"
        }
        1 => {
            w.clear();
            w.extend_from_slice(if src.bool() { b"\r\n" } else { b"\n" });
            "empty size"
        }
        2 => {
            w.push(b'\r');
            w.push(*src.pick(b"\rx 0;"));
            w.extend_from_slice(b"\r\n");
            "CR without LF"
        }
        3 => {
            w.insert(0, *src.pick(b"-+ x;.\t"));
            w.extend_from_slice(b"\r\n");
            "sign or space before the size"
        }
        4 => {
            w.push(*src.pick(b" \t;,"));
            w.extend_from_slice(b"\r\n");
            "junk after the size"
        }
        _ => {
            w.insert(0, *src.pick(b"123456789abcdef"));
            while w.len() < 17 {
                w.push(*src.pick(b"0123456789abcdef"));
            }
            w.extend_from_slice(b"\r\n");
            "size over 64 bits"
        }
    };
    let data = src.bytes(40);
    w.extend_from_slice(&data);
    w.extend_from_slice(b"\r\n");
    ctx.input("fault", &what);
    ctx.bytes("wire", &w);
    ctx.class(what);
    ctx.nontrivial(true);
    let mut b = &w[..];
    match Helper::parse_chunk_data(&mut b) {
        Ok(r) => Err(format!("{}: accepted as {:?}", what, r)),
        Err(e) if e.is_partial() => Err(format!("{}: reported as incomplete", what)),
        Err(_) => Ok(()),
    }
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "lists of 0-8 random chunks (empty, CRLF-bearing, up to 64 KiB) encoded, read by an independent reader and decoded one by one by the library; single chunks written with either hex case and leading zeros with their prefixes; the starts of chunks of up to 2^64-3 octets; and faulty size lines of 6 kinds; a share of the chunks is up to 16 MiB long. Non-trivial: at least one non-empty chunk, or a fault.",
        assumptions: &["chunk extensions and trailers are not supported by the library and count as a faulty size line"],
        subs: vec![
            sub("chunk_stream", Kind::Random(12_000), chunk_stream),
            sub("chunk_wire", Kind::Random(12_000), chunk_wire),
            sub("large_chunks", Kind::Random(150), |s, c| {
                s.arm(23);
                chunk_stream(s, c)
            }),
            sub("chunk_huge", Kind::Random(20_000), chunk_huge),
            sub("chunk_bad", Kind::Random(40_000), chunk_bad),
        ],
    }
}

// ------------------------------------------------------------------ C30
fn nasty_text(src: &mut Src, max: usize) -> String {
    let n = src.size(max);
    let style = src.upto(2);
    (0..n)
        .map(|_| match style {
            0 => *src.pick(&['a', 'b', '\r', '\n', ':', ' ']),
            1 => *src.pick(&['a', '\r', '\n', '\0', '\t', ' ', ':', '/', '?', '%', '#', '\u{10a}', '\u{10d}', '\u{560a}', '\u{85}', '\u{2028}', 'x', '0', 'd', '@']),
            _ => char::from_u32(src.upto(0x24f) as u32).unwrap_or('a'),
        })
        .collect()
}
fn nasty_bytes(src: &mut Src, max: usize) -> Vec<u8> {
    match src.upto(4) {
        0 | 1 => nasty_text(src, max).into_bytes(),
        2 => src.pick(&["x\r\nInjected: 1", "x\nInjected: 1", "x\r\n\r\nGET / HTTP/1.1\r\n\r\n", "x\ry", "\r\n", "\n", "x\r", " \r\n y"]).as_bytes().to_vec(),
        3 => src.bytes(20),
        _ => hvalue(src),
    }
}
fn nasty_name(src: &mut Src) -> String {
    match src.upto(4) {
        0 | 1 => hname(src),
        2 => nasty_text(src, 6),
        3 => src.pick(&["a\r\nb", "a: b\r\nc", "a:", ":a", "", " a", "a b", "a\n", "a\u{0}", "\r\n\r\nx", "a\t", "\u{e9}"]).to_string(),
        _ => {
            let mut n = hname(src);
            let i = src.below(n.len() + 1);
            n.insert(i, *src.pick(&['\r', '\n', ':', ' ', '\0', '\t', '(', '\u{7f}']));
            n
        }
    }
}
fn trim_sp(v: &[u8]) -> &[u8] {
    let mut v = v;
    while v.first() == Some(&b' ') {
        v = &v[1..];
    }
    v
}

/// Splits a serialised message the way a strict receiver would and compares it
/// with what was set.
fn scan_head(out: &[u8], list: &[(String, Vec<u8>)], body: &[u8]) -> Result<Vec<u8>, String> {
    let mut lines: Vec<&[u8]> = Vec::new();
    let mut pos = 0;
    loop {
        let nl = match out[pos..].iter().position(|b| *b == b'\n' || *b == b'\r') {
            Some(i) => pos + i,
            None => return Err("the head never ends".into()),
        };
        let line = &out[pos..nl];
        ensure!(
            out[nl] == b'\r' && out.get(nl + 1) == Some(&b'\n'),
            "line {} ends in a lone {}",
            show(line),
            if out[nl] == b'\r' { "CR" } else { "LF" }
        );
        pos = nl + 2;
        if line.is_empty() {
            break;
        }
        lines.push(line);
    }
    ensure!(!lines.is_empty(), "no start line");
    ensure!(out[pos..] == *body, "what follows the head is not the body: {}", show(&out[pos..]));
    ensure!(lines.len() == list.len() + 1, "{} header lines for {} headers", lines.len() - 1, list.len());
    for (l, (n, v)) in lines[1..].iter().zip(list) {
        let c = l.iter().position(|b| *b == b':').ok_or_else(|| format!("no colon in {}", show(l)))?;
        ensure!(
            c > 0 && l[..c].iter().all(|b| TCHAR.contains(b)),
            "header name {} is not a token",
            show(&l[..c])
        );
        ensure!(l[..c].eq_ignore_ascii_case(n.as_bytes()), "header line {} for header {:?}", show(l), n);
        ensure!(trim_sp(&l[c + 1..]) == trim_sp(v), "header line {} for value {}", show(l), show(v));
    }
    Ok(lines[0].to_vec())
}

fn inject_request(src: &mut Src, ctx: &mut Ctx) -> R {
    let extension = src.chance(1, 6);
    let method = match extension {
        false => src.pick(methods()).to_string(),
        true => match src.upto(2) {
            0 => hname(src),
            1 => nasty_text(src, 8),
            // a known method with something behind it
            _ => format!("{}{}", *src.pick(methods()), nasty_text(src, 4)),
        },
    };
    let make = |m: &str| if extension { Method::Extension(m.to_string()) } else { method_of(m) };
    let version = *src.pick(versions());
    let mut list: Vec<(String, Vec<u8>)> = Vec::new();
    let nasty_headers = src.chance(2, 3);
    for _ in 0..src.upto(3) {
        let (n, v) = if nasty_headers { (nasty_name(src), nasty_bytes(src, 10)) } else { (hname(src), hvalue(src)) };
        if !contains_name(&list, &n) {
            list.push((n, v));
        }
    }
    let map = mk_map(src, &list);
    list = map_list(&map);
    let mut url = Url::new();
    match src.upto(3) {
        0 => {}
        1 => {
            // a URL that really parses, with escaped control characters
            let t = nasty_text(src, 8);
            let q = nasty_text(src, 8);
            let h = nasty_text(src, 4);
            let s = format!(
                "http://h{}/{}?{}",
                pct(src, h.as_bytes(), unreserved),
                pct(src, t.as_bytes(), path_char),
                pct(src, q.as_bytes(), query_char)
            );
            ctx.input("url", &s);
            url = Url::parse(s.clone().into_bytes()).map_err(|e| format!("URL {} refused: {:?}", s, e))?;
        }
        _ => {
            url.path = nasty_text(src, 10);
            url.query = if src.bool() { Some(nasty_text(src, 10)) } else { None };
            if src.bool() {
                url.domain = Some(nasty_text(src, 6));
                url.port = Some(port(src));
                if src.bool() {
                    url.scheme = Scheme::Http;
                }
            }
        }
    }
    ctx.input("method", &method);
    ctx.input("url fields", &url);
    ctx.input("headers", &show_headers(&list));
    let body = body_bytes(src);
    let mut req = if src.bool() {
        let b = Request::builder().method(make(&method)).version(version_of(version)).url(url).headers(map);
        match b.body(body.clone()) {
            Ok(r) => r,
            Err(_) => return Ok(()),
        }
    } else {
        let mut r = Request::new();
        r.set_method(make(&method));
        r.set_version(version_of(version));
        *r.headers_mut() = map;
        r.set_url(url);
        r.into(body.clone()).0
    };
    let list = map_list(req.headers());
    let bad = list.iter().any(|(n, v)| {
        n.is_empty() || !n.bytes().all(|b| TCHAR.contains(&b)) || v.iter().any(|b| *b == b'\r' || *b == b'\n')
    }) || method.is_empty()
        || !method.bytes().all(|b| TCHAR.contains(&b));
    ctx.class_if(extension, "extension method");
    ctx.class_if(bad, "must be refused");
    ctx.nontrivial(bad || !req.path().bytes().all(path_char) || req.url().query.is_some());
    let out = match req.http1_data() {
        Ok(o) => o,
        Err(_) => {
            ctx.class("refused");
            return Ok(());
        }
    };
    ctx.bytes("serialised", &out);
    let start = scan_head(&out, &list, &body)?;
    let parts: Vec<&[u8]> = start.split(|b| *b == b' ').collect();
    ensure!(
        parts.len() == 3 && parts[0] == method.as_bytes() && parts[2] == version.as_bytes() && !parts[1].is_empty(),
        "request line {} is not 'method target version'",
        show(&start)
    );
    ensure!(parts[1].iter().all(|b| *b > 0x20 && *b < 0x7f), "target {} has a forbidden byte", show(parts[1]));
    let mut back = Request::new();
    if let Ok(n) = back.parse(&out) {
        ctx.class("parsed back");
        same!("consumed", n, out.len() - body.len());
        same!("number of headers", back.headers().len(), list.len());
    }
    Ok(())
}

fn inject_response(src: &mut Src, ctx: &mut Ctx) -> R {
    let version = *src.pick(versions());
    let code = *src.pick(&[200u16, 404, 301, 101, 503]);
    let mut list: Vec<(String, Vec<u8>)> = Vec::new();
    for _ in 0..src.range(1, 3) {
        let (n, v) = match src.upto(2) {
            0 => (hname(src), nasty_bytes(src, 10)),
            1 => (nasty_name(src), hvalue(src)),
            _ => (hname(src), hvalue(src)),
        };
        if !contains_name(&list, &n) {
            list.push((n, v));
        }
    }
    let map = mk_map(src, &list);
    let body = body_bytes(src);
    ctx.input("headers", &show_headers(&list));
    ctx.bytes("body", &body);
    let mut res = if src.bool() {
        match Response::builder().status(code).version(version_of(version)).headers(map).body(body.clone()) {
            Ok(r) => r,
            Err(_) => return Ok(()),
        }
    } else {
        let mut r = Response::new(body.clone());
        *r.status_mut() = StatusCode::from_u16(code).unwrap();
        *r.version_mut() = version_of(version);
        *r.headers_mut() = map;
        r
    };
    let list = map_list(res.headers());
    let bad = list.iter().any(|(n, v)| {
        n.is_empty() || !n.bytes().all(|b| TCHAR.contains(&b)) || v.iter().any(|b| *b == b'\r' || *b == b'\n')
    });
    ctx.class_if(bad, "must be refused");
    ctx.nontrivial(true);
    let out = match res.httpdata() {
        Ok(o) => o,
        Err(_) => {
            ctx.class("refused");
            return Ok(());
        }
    };
    ctx.bytes("serialised", &out);
    let start = scan_head(&out, &list, &body)?;
    let want = format!("{} {} ", version, code);
    ensure!(start.starts_with(want.as_bytes()), "status line {}", show(&start));
    let mut back = Response::new(());
    let n = back.parse(&out).map_err(|e| format!("serialised response refused: {:?}", e))?;
    same!("consumed", n, out.len() - body.len());
    same!("number of headers", back.headers().len(), list.len());
    Ok(())
}

pub fn c30() -> Prop {
    Prop {
        id: "C30",
        rule: "requests and responses whose method, header names, values, URL, path, query and host are drawn from alphabets full of CR, LF, NUL, ':', spaces and look-alike code points, built directly or through builders; whatever serialises is re-read by an independent strict line scanner. Non-trivial: some field needs refusing or escaping.",
        assumptions: &["leading spaces of a value are not part of it", "the version is one of the library's"],
        subs: vec![
            sub("inject_request", Kind::Random(60_000), inject_request),
            sub("inject_response", Kind::Random(50_000), inject_response),
        ],
    }
}
