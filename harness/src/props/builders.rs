//! C34 C36 C37: builders, conversions between messages, URL assembly.
use super::gen::*;
use super::http1::{method_of, version_of};
use super::tokens::CODES;
use super::url::scheme;
use crate::engine::*;
use crate::{ensure, same};
use algorithm::buf::{Binary, Bt};
use std::fmt::Debug;
use std::str::FromStr;
use std::sync::{Arc, RwLock};
use webparse::http::{request, response};
use webparse::http2::frame::Settings;
use webparse::http2::HeaderIndex;
use webparse::{Extensions, HeaderMap, Method, Request, Response, Scheme, Serialize, StatusCode, Url, Version};

type List = Vec<(String, Vec<u8>)>;

/// A header map is an ordered list with one entry per name.
fn put(l: &mut List, name: &str, value: &[u8]) {
    match l.iter_mut().find(|x| x.0.eq_ignore_ascii_case(name)) {
        Some(x) => x.1 = value.to_vec(),
        None => l.push((name.to_string(), value.to_vec())),
    }
}
fn same_list(what: &str, m: &HeaderMap, l: &List) -> R {
    let got = map_list(m);
    ensure!(same_headers(&got, l), "{}: headers are {:?}, expected {:?}", what, show_headers(&got), show_headers(l));
    Ok(())
}
/// Names from a small pool, so that they meet again.
fn a_name(src: &mut Src) -> String {
    match src.upto(3) {
        0 => {
            let s = *src.pick(&["Host", "User-Agent", "Server", "Content-Length", "Connection", "Content-Type", "X-A", "X-B"]);
            recase(src, s)
        }
        1 => src.pick(&["host", "user-agent", "server", "upgrade", "http2-settings"]).to_string(),
        _ => hname(src),
    }
}
fn a_url(src: &mut Src) -> Url {
    let mut u = Url::new();
    if src.chance(2, 3) {
        u.scheme = scheme(src);
    }
    if src.chance(2, 3) {
        u.domain = Some(host(src));
    }
    if src.chance(2, 3) {
        u.port = Some(port(src));
    }
    if src.chance(2, 3) {
        u.path = format!("/{}", text(src, 12));
    }
    if src.chance(1, 3) {
        u.query = Some(text(src, 12));
    }
    if src.chance(1, 3) {
        u.username = Some(text(src, 6));
    }
    if src.chance(1, 3) {
        u.password = Some(text(src, 6));
    }
    u
}
/// A URL text and what it means.
fn url_text(src: &mut Src) -> (String, Url) {
    let mut u = Url::new();
    if src.bool() {
        u.scheme = match src.upto(3) {
            0 => Scheme::Http,
            1 => Scheme::Https,
            2 => Scheme::Ws,
            _ => Scheme::Wss,
        };
        u.domain = Some(host(src));
        u.port = Some(port(src));
    }
    let word = |src: &mut Src| -> String {
        let n = src.size(8);
        (0..n).map(|_| *src.pick(b"abcXYZ019-._~") as char).collect()
    };
    u.path = format!("/{}", word(src));
    if src.bool() {
        u.query = Some(format!("{}=1", word(src)));
    }
    let mut s = String::new();
    if u.domain.is_some() {
        s.push_str(&format!("{}://{}:{}", u.scheme.as_str(), u.domain.as_ref().unwrap(), u.port.unwrap()));
    }
    s.push_str(&u.path);
    if let Some(q) = &u.query {
        s.push('?');
        s.push_str(q);
    }
    // what a text means is decided by C12
    if u.domain.is_none() {
        u.port = Url::from_str(&s).map(|v| v.port).unwrap_or(None);
    }
    (s, u)
}
fn connect(u: &Url) -> Option<String> {
    match (&u.domain, u.port) {
        (Some(d), Some(p)) => Some(format!("{}:{}", d, p)),
        _ => None,
    }
}
fn a_settings(src: &mut Src) -> Settings {
    let mut s = Settings::default();
    if src.bool() {
        s.set_max_concurrent_streams(Some(src.scaled(32) as u32));
    }
    if src.bool() {
        s.set_initial_window_size(Some(src.scaled(31) as u32));
    }
    if src.bool() {
        s.set_enable_push(src.bool());
    }
    if src.bool() {
        s.set_max_frame_size(Some(src.range(16384, 16777215) as u32));
    }
    s
}
fn a_body(src: &mut Src) -> Vec<u8> {
    src.payload(60)
}

// ------------------------------------------------------------------ C34
struct ReqModel {
    method: Method,
    url: Url,
    version: Version,
    headers: List,
    settings: Option<Settings>,
}
fn check_req_builder(b: &request::Builder, m: &Option<ReqModel>) -> R {
    match m {
        None => {
            ensure!(b.method_ref().is_none() && b.url_ref().is_none() && b.version_ref().is_none() && b.headers_ref().is_none(), "a failed builder still shows parts");
            same!("body length of a failed builder", b.get_body_len(), 0);
        }
        Some(m) => {
            same!("method", b.method_ref(), Some(&m.method));
            same!("URL", b.url_ref(), Some(&m.url));
            same!("version", b.version_ref(), Some(&m.version));
            same_list("builder", b.headers_ref().ok_or("no headers")?, &m.headers)?;
            same!("body length", b.get_body_len(), body_len(&m.headers));
        }
    }
    Ok(())
}
/// The Content-Length, when it is a number that fits.
fn body_len(l: &List) -> isize {
    match l.iter().find(|x| x.0.eq_ignore_ascii_case("content-length")) {
        Some((_, v)) => {
            let ok = !v.is_empty() && v.iter().all(|b| b.is_ascii_digit());
            match (ok, std::str::from_utf8(v)) {
                (true, Ok(t)) => t.parse::<isize>().unwrap_or(0),
                _ => 0,
            }
        }
        None => 0,
    }
}
fn skip_name(n: &str) -> bool {
    n.eq_ignore_ascii_case("transfer-encoding") || n.eq_ignore_ascii_case("content-length")
}
/// A header that leaves the framing decisions (C10, C33) out, except for a
/// plain Content-Length.
fn a_header(src: &mut Src) -> (String, Vec<u8>) {
    let n = a_name(src);
    if n.eq_ignore_ascii_case("content-length") {
        let v = src.scaled(62).to_string();
        return (n, v.into_bytes());
    }
    let n = if skip_name(&n) { "x-other".to_string() } else { n };
    let v = hvalue(src);
    (n, v)
}

fn request_builder(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut b = match src.upto(1) {
        0 => Request::builder(),
        _ => request::Builder::new(),
    };
    let mut m = Some(ReqModel { method: Method::Get, url: Url::new(), version: Version::Http11, headers: vec![], settings: None });
    let mut log: Vec<String> = vec![];
    let n = src.range(0, 12);
    let mut failed = false;
    for _ in 0..n {
        let mut fail = false;
        match src.upto(13) {
            0 | 1 => {
                let t = *src.pick(methods());
                log.push(format!("method {}", t));
                b = match src.upto(1) {
                    0 => b.method(t),
                    _ => b.method(method_of(t)),
                };
                if let Some(m) = &mut m {
                    m.method = method_of(t);
                }
            }
            2 | 3 => {
                let (t, u) = url_text(src);
                log.push(format!("url {:?}", t));
                b = match src.upto(2) {
                    0 => b.url(&*t),
                    1 => b.url(t.clone()),
                    _ => b.url(t.as_bytes()),
                };
                if let Some(m) = &mut m {
                    if let Some(c) = connect(&u) {
                        put(&mut m.headers, "Host", c.as_bytes());
                    }
                    m.url = u;
                }
            }
            4 => {
                let u = a_url(src);
                log.push(format!("url value {:?}", u));
                b = b.url(u.clone());
                if let Some(m) = &mut m {
                    if let Some(c) = connect(&u) {
                        put(&mut m.headers, "Host", c.as_bytes());
                    }
                    m.url = u;
                }
            }
            5 => {
                let t = *src.pick(versions());
                log.push(format!("version {}", t));
                b = b.version(version_of(t));
                if let Some(m) = &mut m {
                    m.version = version_of(t);
                }
            }
            6 | 7 | 8 => {
                let (name, value) = a_header(src);
                log.push(format!("header {} = {}", name, show(&value)));
                let (k, v) = (mk_name(src, &name), mk_value(src, &value));
                b = b.header(k, v);
                if let Some(m) = &mut m {
                    put(&mut m.headers, &name, &value);
                }
            }
            9 => {
                let l = {
                    let mut l = fillers(src);
                    for _ in 0..src.upto(4) {
                        let (n, v) = a_header(src);
                        put(&mut l, &n, &v);
                    }
                    l
                };
                log.push(format!("headers {}", show_headers(&l)));
                b = b.headers(mk_map(src, &l));
                if let Some(m) = &mut m {
                    for (n, v) in &l {
                        put(&mut m.headers, n, v);
                    }
                }
            }
            10 => {
                let (name, value) = a_header(src);
                let remove = src.bool();
                log.push(format!("headers_mut {} {} = {}", if remove { "remove" } else { "insert" }, name, show(&value)));
                match (b.headers_mut(), &mut m) {
                    (Some(h), Some(m)) => {
                        if remove {
                            let had = m.headers.iter().position(|x| x.0.eq_ignore_ascii_case(&name)).map(|i| m.headers.remove(i).1);
                            let got = h.remove(&name).map(|v| v.as_bytes().to_vec());
                            same!("removed value", got, had);
                        } else {
                            h.insert(mk_name(src, &name), mk_value(src, &value));
                            put(&mut m.headers, &name, &value);
                        }
                    }
                    (None, None) => (),
                    (h, _) => return Err(format!("headers_mut gives {}", if h.is_some() { "headers of a failed builder" } else { "nothing" })),
                }
            }
            11 => {
                let s = a_settings(src);
                log.push(format!("upgrade_http2 {:?}", s));
                if let Some(m) = &mut m {
                    put(&mut m.headers, "Connection", b"Upgrade, HTTP2-Settings");
                    put(&mut m.headers, "Upgrade", b"h2c");
                    put(&mut m.headers, "HTTP2-Settings", s.encode_http_settings().as_bytes());
                    m.settings = Some(s.clone());
                }
                b = b.upgrade_http2(s);
            }
            12 => {
                let bad = ["GE", "get", "", "GET ", "PROPFIND", "G\u{0}T"];
                let t = *src.pick(&bad);
                log.push(format!("bad method {:?}", t));
                b = b.method(t);
                fail = true;
            }
            _ => {
                let bad = ["http://a:99999/", "http://a:b/", "/%zz", "http://a/%", "/a b", "http://h:1:2/"];
                let t = *src.pick(&bad);
                log.push(format!("bad url {:?}", t));
                b = b.url(t);
                fail = true;
            }
        }
        if fail {
            m = None;
            failed = true;
        }
        if src.bool() {
            check_req_builder(&b, &m).map_err(|e| format!("after {:?}: {}", log, e))?;
        }
    }
    let body = a_body(src);
    ctx.input("calls", &log);
    ctx.bytes("body", &body);
    ctx.nontrivial(log.len() >= 2);
    ctx.class(if failed { "a refused call" } else { "all calls legal" });
    check_req_builder(&b, &m).map_err(|e| format!("after {:?}: {}", log, e))?;
    let made = b.body(body.clone());
    match (made, m) {
        (Err(_), None) => (),
        (Ok(_), None) => return Err(format!("{:?}: a refused component and still a request", log)),
        (Err(e), Some(_)) => return Err(format!("{:?}: no request: {:?}", log, e)),
        (Ok(mut r), Some(mut m)) => {
            if !contains_name(&m.headers, "user-agent") {
                put(&mut m.headers, "User-Agent", b"wenmeng");
                ctx.class("default user agent");
            } else {
                ctx.class("own user agent");
            }
            same!("method", r.method(), &m.method);
            same!("URL", r.url(), &m.url);
            same!("version", r.version(), m.version);
            same!("is_http2", r.is_http2(), m.version == Version::Http2);
            same!("path", r.path(), &m.url.path);
            same!("scheme", r.scheme(), &m.url.scheme);
            same!("connection address", r.get_connect_url(), connect(&m.url));
            same_list("request", r.headers(), &m.headers)?;
            same!("body", show(r.body()), show(&body));
            same!("body length", r.get_body_len(), body_len(&m.headers));
            if let Some(s) = &m.settings {
                let v = m.headers.iter().find(|x| x.0.eq_ignore_ascii_case("http2-settings")).map(|x| x.1.clone());
                if v == Some(s.encode_http_settings().into_bytes()) {
                    let t = r.headers().get_str_value(&"HTTP2-Settings").ok_or("no settings")?;
                    same!("settings of the upgrade", Settings::default().parse_http_settings(&t).map_err(|e| format!("{:?}", e))?, s.clone());
                    ctx.class("upgrade to HTTP/2");
                }
            }
            // a builder made from it
            let again = request::Builder::from_req(&r);
            same!("method of from_req", again.method_ref(), Some(&m.method));
            same!("URL of from_req", again.url_ref(), Some(&m.url));
            same!("version of from_req", again.version_ref(), Some(&m.version));
            let again = again.body(()).map_err(|e| format!("{:?}", e))?;
            same!("method of the copy", again.method(), &m.method);
            same!("URL of the copy", again.url(), &m.url);
            same!("version of the copy", again.version(), m.version);
            // what is sent ends with the body and holds every header
            let data = r.http1_data();
            let printable = m.headers.iter().all(|(_, v)| !v.iter().any(|b| *b == b'\r' || *b == b'\n'));
            if let (Ok(d), true) = (data, printable) {
                ensure!(d.ends_with(&body), "the serialised request does not end with its body");
                let head = show(&d[..d.len() - body.len()]);
                ensure!(head.starts_with(&format!("{} ", m.method.as_str())), "request line of {:?}", head);
            }
        }
    }
    Ok(())
}

/// Several builders of the same content are the same whatever the order of
/// calls that do not touch each other.
fn request_orders(src: &mut Src, ctx: &mut Ctx) -> R {
    let t = *src.pick(methods());
    let v = *src.pick(versions());
    let (url, _) = url_text(src);
    let l = headers(src, 5, &["host", "user-agent"]);
    ctx.input("method, version, url", &(t, v, &url));
    ctx.input("headers", &show_headers(&l));
    ctx.nontrivial(!l.is_empty());
    ctx.class("permuted calls");
    let mut results = vec![];
    for _ in 0..2 {
        let mut order = [0, 1, 2];
        src.shuffle(&mut order);
        let mut b = Request::builder();
        // the URL may set Host, which has its own place; put it first
        b = b.header("Host", "x");
        let mut rest = l.iter();
        for o in order {
            b = match o {
                0 => b.method(t),
                1 => b.version(version_of(v)),
                _ => b.url(&*url),
            };
            if let Some((n, v)) = rest.next() {
                b = b.header(mk_name(src, n), mk_value(src, v));
            }
        }
        for (n, v) in rest {
            b = b.header(mk_name(src, n), mk_value(src, v));
        }
        let mut r = b.body("body").map_err(|e| format!("{:?}", e))?;
        results.push((map_list(r.headers()).into_iter().map(|(n, v)| (n.to_ascii_lowercase(), v)).collect::<Vec<_>>(), r.url().clone(), r.method().clone(), r.version(), r.http1_data().is_ok()));
    }
    same!("request built in another order", results[0], results[1]);
    Ok(())
}

struct ResModel {
    status: u16,
    version: Version,
    headers: List,
    ext: Option<u32>,
    note: Option<String>,
}
fn check_res_builder(b: &response::Builder, m: &Option<ResModel>) -> R {
    match m {
        None => {
            ensure!(b.headers_ref().is_none() && b.extensions_ref().is_none(), "a failed builder still shows parts");
            same!("body length of a failed builder", b.get_body_len(), 0);
        }
        Some(m) => {
            same_list("builder", b.headers_ref().ok_or("no headers")?, &m.headers)?;
            same_ext("builder", b.extensions_ref().ok_or("no extensions")?, &m.ext, &m.note)?;
            same!("body length", b.get_body_len(), body_len(&m.headers));
        }
    }
    Ok(())
}
fn same_ext(what: &str, e: &Extensions, ext: &Option<u32>, note: &Option<String>) -> R {
    same!(format!("{}: number extension", what), e.get::<u32>(), ext.as_ref());
    same!(format!("{}: text extension", what), e.get::<String>(), note.as_ref());
    Ok(())
}
fn response_builder(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut log: Vec<String> = vec![];
    let plain = |status, ct: Option<&str>| ResModel {
        status,
        version: Version::Http11,
        headers: ct.map(|c| vec![("content-type".to_string(), c.as_bytes().to_vec())]).unwrap_or_default(),
        ext: None,
        note: None,
    };
    let start = src.upto(7);
    log.push(format!("start {}", start));
    let html = Some("text/html; charset=utf-8");
    let (mut b, m) = match start {
        0 => (Response::builder(), plain(200, None)),
        1 => (response::Builder::new(), plain(200, None)),
        2 => (Response::text(), plain(200, Some("text/plain; charset=utf-8"))),
        3 => (Response::json(), plain(200, Some("application/json; charset=utf-8"))),
        4 => (Response::status404(), plain(404, html)),
        5 => (Response::status500(), plain(500, html)),
        6 => (Response::status502(), plain(502, html)),
        _ => (Response::status503(), plain(503, html)),
    };
    let mut m = Some(m);
    check_res_builder(&b, &m).map_err(|e| format!("after {:?}: {}", log, e))?;
    let mut failed = false;
    for _ in 0..src.range(0, 10) {
        match src.upto(10) {
            9 => {
                // a response made from an HTTP/2 frame keeps its method
                let t = if src.bool() { src.pick(&["GET", "HEAD", "POST", "CONNECT"]).to_string() } else { show(&src.bulk_of(3, b"ABCdef-_")) };
                log.push(format!("method {}", t));
                b = b.method(t.clone());
                if let Some(m) = &mut m {
                    put(&mut m.headers, ":method", t.as_bytes());
                }
            }
            0 | 1 => {
                let n = if src.bool() { src.pick(CODES).0 } else { src.range(100, 999) as u16 };
                log.push(format!("status {}", n));
                let t = n.to_string();
                b = match src.upto(3) {
                    0 => b.status(n),
                    1 => b.status(&*t),
                    2 => b.status(t.as_bytes()),
                    _ => b.status(StatusCode::from_u16(n).map_err(|_| "refused")?),
                };
                if let Some(m) = &mut m {
                    m.status = n;
                }
            }
            2 => {
                let t = *src.pick(versions());
                log.push(format!("version {}", t));
                b = b.version(version_of(t));
                if let Some(m) = &mut m {
                    m.version = version_of(t);
                }
            }
            3 | 4 => {
                let (name, value) = a_header(src);
                log.push(format!("header {} = {}", name, show(&value)));
                b = b.header(mk_name(src, &name), mk_value(src, &value));
                if let Some(m) = &mut m {
                    put(&mut m.headers, &name, &value);
                }
            }
            5 => {
                let mut l = fillers(src);
                for _ in 0..src.upto(4) {
                    let (n, v) = a_header(src);
                    put(&mut l, &n, &v);
                }
                log.push(format!("headers {}", show_headers(&l)));
                b = b.headers(mk_map(src, &l));
                if let Some(m) = &mut m {
                    for (n, v) in &l {
                        put(&mut m.headers, n, v);
                    }
                }
            }
            6 => {
                let (name, value) = a_header(src);
                log.push(format!("headers_mut insert {} = {}", name, show(&value)));
                match (b.headers_mut(), &mut m) {
                    (Some(h), Some(m)) => {
                        h.insert(mk_name(src, &name), mk_value(src, &value));
                        put(&mut m.headers, &name, &value);
                    }
                    (None, None) => (),
                    (h, _) => return Err(format!("headers_mut gives {}", if h.is_some() { "headers of a failed builder" } else { "nothing" })),
                }
            }
            7 => {
                let x = src.scaled(32) as u32;
                log.push(format!("extension {}", x));
                b = b.extension(x);
                if let Some(m) = &mut m {
                    m.ext = Some(x);
                }
            }
            8 => {
                let x = text(src, 5);
                log.push(format!("extension {:?}", x));
                b = b.extension(x.clone());
                if let Some(m) = &mut m {
                    m.note = Some(x);
                }
            }
            _ => {
                log.push("bad status".into());
                b = match src.upto(3) {
                    0 => b.status(*src.pick(&[0u16, 1, 99, 1000, 65535])),
                    1 => b.status(*src.pick(&["", "20", "2000", "abc", "099", " 200"])),
                    _ => b.status(&b"2\xff0"[..]),
                };
                m = None;
                failed = true;
            }
        }
        if src.bool() {
            check_res_builder(&b, &m).map_err(|e| format!("after {:?}: {}", log, e))?;
        }
    }
    let body = a_body(src);
    ctx.input("calls", &log);
    ctx.bytes("body", &body);
    ctx.nontrivial(log.len() >= 3);
    ctx.class(if failed { "a refused call" } else { "all calls legal" });
    check_res_builder(&b, &m).map_err(|e| format!("after {:?}: {}", log, e))?;
    match (b.body(body.clone()), m) {
        (Err(_), None) => Ok(()),
        (Ok(_), None) => Err(format!("{:?}: a refused component and still a response", log)),
        (Err(e), Some(_)) => Err(format!("{:?}: no response: {:?}", log, e)),
        (Ok(r), Some(mut m)) => {
            if !contains_name(&m.headers, "server") {
                put(&mut m.headers, "Server", b"wenmeng");
            }
            same!("status", r.status().as_u16(), m.status);
            same!("version", r.version(), m.version);
            same_list("response", r.headers(), &m.headers)?;
            same_ext("response", r.extensions(), &m.ext, &m.note)?;
            same!("body", show(r.body()), show(&body));
            same!("body length", r.get_body_len(), body_len(&m.headers));
            ensure!(!r.is_partial(), "a built response is partial");
            Ok(())
        }
    }
}
pub fn c34() -> Prop {
    Prop {
        id: "",
        rule: "histories of 0-12 builder calls (legal and refused methods, URLs as text, bytes or values, versions, status codes, headers, header maps, direct edits, extensions, a method for a response, HTTP/2 upgrade, the ready-made starts) against a model message, compared after a random subset of calls and in the built message; permuted independent calls; setters used on the built message. Non-trivial: at least two calls (one header for permutations).",
        assumptions: &["header names are RFC 7230 tokens, values contain no CR/LF", "Content-Length is a numeral, transfer codings are left to C33"],
        subs: vec![
            sub("request_builder", Kind::Random(8_000), request_builder),
            sub("response_builder", Kind::Random(8_000), response_builder),
            sub("call_order", Kind::Random(3_000), request_orders),
            sub("request_history", Kind::Random(4_000), request_history),
            sub("response_history", Kind::Random(4_000), response_history),
        ],
    }
}

// ------------------------------------------------------------------ C36
trait Bytes {
    fn b(&self) -> Vec<u8>;
}
impl Bytes for Vec<u8> {
    fn b(&self) -> Vec<u8> {
        self.clone()
    }
}
impl Bytes for String {
    fn b(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
impl Bytes for &'static str {
    fn b(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
impl Bytes for () {
    fn b(&self) -> Vec<u8> {
        vec![]
    }
}
impl Bytes for Binary {
    fn b(&self) -> Vec<u8> {
        self.chunk().to_vec()
    }
}
type Shared = Arc<RwLock<HeaderIndex>>;

struct Req {
    method: Method,
    url: Url,
    version: Version,
    headers: List,
    ext: Option<u32>,
    note: Option<String>,
    shared: Option<Shared>,
    partial: bool,
}
fn check_req<T: Serialize + Bytes>(what: &str, r: &Request<T>, m: &Req, body: &[u8]) -> R {
    same!(format!("{}: method", what), r.method(), &m.method);
    same!(format!("{}: URL", what), r.url(), &m.url);
    same!(format!("{}: path", what), r.path(), &m.url.path);
    same!(format!("{}: scheme", what), r.scheme(), &m.url.scheme);
    same!(format!("{}: scheme text", what), r.get_scheme(), m.url.scheme.as_str());
    same!(format!("{}: authority", what), r.get_authority(), authority(&m.url));
    same!(format!("{}: version", what), r.version(), m.version);
    same!(format!("{}: is_http2", what), r.is_http2(), m.version == Version::Http2);
    same_list(what, r.headers(), &m.headers)?;
    same_ext(what, r.extensions(), &m.ext, &m.note)?;
    let shared = r.extensions().get::<Shared>();
    ensure!(
        match (shared, &m.shared) {
            (Some(a), Some(b)) => Arc::ptr_eq(a, b),
            (None, None) => true,
            _ => false,
        },
        "{}: shared compression state {} instead of {}",
        what,
        shared.is_some(),
        m.shared.is_some()
    );
    same!(format!("{}: partial", what), (r.is_partial(), r.is_complete()), (m.partial, !m.partial));
    same!(format!("{}: body", what), show(&r.body().b()), show(body));
    let p = r.parts();
    same!(format!("{}: parts", what), (&p.method, &p.url, p.version), (&m.method, &m.url, m.version));
    same_list(what, &p.header, &m.headers)?;
    Ok(())
}
fn simple_headers(src: &mut Src) -> List {
    let mut l: List = vec![];
    let many = src.chance(1, 12);
    let k = if many { src.range(6, 80) } else { src.upto(5) };
    for i in 0..k {
        let n = if many && src.chance(3, 4) { format!("n{}", i) } else { a_name(src) };
        let v = hvalue(src);
        if !skip_name(&n) {
            put(&mut l, &n, &v);
        }
    }
    l
}
/// A request as it comes from the parser or from a builder.
fn start_request(src: &mut Src, ctx: &mut Ctx) -> Result<(Request<Vec<u8>>, Req, Vec<u8>), String> {
    let body = a_body(src);
    let method = *src.pick(methods());
    let version = *src.pick(versions());
    let mut m = Req { method: method_of(method), url: Url::new(), version: version_of(version), headers: vec![], ext: None, note: None, shared: None, partial: false };
    let mut r: Request<()> = Request::new();
    match src.upto(3) {
        0 => {
            ctx.class("built");
            let (t, u) = url_text(src);
            m.headers = simple_headers(src);
            let b = Request::builder().method(method).version(m.version);
            let r = b.url(&*t).headers(mk_map(src, &m.headers)).body(body.clone()).map_err(|e| format!("{:?}", e))?;
            m.url = u;
            m.headers = map_list(r.headers());
            m.partial = r.is_partial();
            return Ok((r, m, body));
        }
        1 => {
            ctx.class("from parts");
            let mut p = request::Parts::new();
            m.headers = simple_headers(src);
            m.url = a_url(src);
            p.method = m.method.clone();
            p.version = m.version;
            p.url = m.url.clone();
            p.header = mk_map(src, &m.headers);
            r = Request::new_by_parts(p);
        }
        k => {
            let m2 = if method == "CONNECT" { "GET" } else { method };
            m.method = method_of(m2);
            m.headers = vec![("host".into(), b"h.example:81".to_vec()), ("x-a".into(), b"1".to_vec())];
            m.version = Version::Http11;
            let head = format!("{} /p?q=1 HTTP/1.1\r\nhost: h.example:81\r\nx-a: 1\r\n\r\n", m2);
            if k == 2 {
                ctx.class("parsed");
                r.parse(head.as_bytes()).map_err(|e| format!("{:?}", e))?;
                m.url = Url { scheme: Scheme::Http, domain: Some("h.example".into()), port: Some(81), path: "/p".into(), query: Some("q=1".into()), username: None, password: None };
            } else {
                ctx.class("partly parsed");
                let cut = head.len() - src.range(1, 4) as usize;
                ensure!(r.parse(&head.as_bytes()[..cut]).is_err(), "a truncated request is accepted");
                m.partial = true;
                // which parts a failed parse leaves behind is its own affair
                m.method = r.method().clone();
                m.url = r.url().clone();
                m.version = r.version();
                m.headers = map_list(r.headers());
            }
        }
    }
    let (r, ()) = r.into(body.clone());
    Ok((r, m, body))
}
fn request_history(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut r, mut m, mut body) = start_request(src, ctx)?;
    let mut log: Vec<String> = vec![];
    check_req("start", &r, &m, &body)?;
    let n = src.range(1, 14);
    for _ in 0..n {
        let op = src.upto(16);
        let what: String;
        match op {
            0 => {
                let t = *src.pick(methods());
                what = format!("set_method {}", t);
                r.set_method(method_of(t));
                m.method = method_of(t);
            }
            1 => {
                let t = *src.pick(versions());
                what = format!("set_version {}", t);
                r.set_version(version_of(t));
                m.version = version_of(t);
            }
            2 => {
                let t = text(src, 8);
                what = format!("set_path {:?}", t);
                r.set_path(t.clone());
                m.url.path = t;
            }
            3 => {
                let s = scheme(src);
                what = format!("set_scheme {:?}", s);
                r.set_scheme(s.clone());
                m.url.scheme = s;
            }
            4 | 5 => {
                let u = a_url(src);
                what = format!("set_url {:?}", u);
                if let (Some(c), false) = (connect(&u), contains_name(&m.headers, "host")) {
                    put(&mut m.headers, "Host", c.as_bytes());
                }
                r.set_url(u.clone());
                m.url = u;
            }
            6 => {
                let u = a_url(src);
                what = format!("url_mut {:?}", u);
                r.url_mut().domain = u.domain.clone();
                r.url_mut().query = u.query.clone();
                m.url.domain = u.domain;
                m.url.query = u.query;
            }
            7 => {
                let (name, v) = (a_name(src), hvalue(src));
                what = format!("header {} = {}", name, show(&v));
                let (k, x) = (mk_name(src, &name), mk_value(src, &v));
                match src.upto(2) {
                    0 => r.headers_mut().insert(k, x),
                    1 => r.headers_body_mut().0.insert(k, x),
                    _ => r.parts_mut().header.insert(k, x),
                };
                put(&mut m.headers, &name, &v);
            }
            8 => {
                let name = a_name(src);
                what = format!("remove {}", name);
                let had = m.headers.iter().position(|x| x.0.eq_ignore_ascii_case(&name)).map(|i| m.headers.remove(i).1);
                same!("removed value", r.headers_mut().remove(&name).map(|v| v.as_bytes().to_vec()), had);
            }
            9 => {
                let x = src.scaled(32) as u32;
                what = format!("extension {}", x);
                r.extensions_mut().insert(x);
                m.ext = Some(x);
                if src.bool() {
                    let t = text(src, 4);
                    r.extensions_mut().insert(t.clone());
                    m.note = Some(t);
                }
            }
            10 => {
                what = "shared state".into();
                let s: Shared = Arc::new(RwLock::new(HeaderIndex::new()));
                r.extensions_mut().insert(s.clone());
                m.shared = Some(s);
            }
            11 => {
                let b = a_body(src);
                what = format!("body_mut {}", show(&b));
                match src.upto(1) {
                    0 => *r.body_mut() = b.clone(),
                    _ => *r.headers_body_mut().1 = b.clone(),
                }
                body = b;
            }
            12 => {
                let t = text(src, 20);
                what = format!("into text {:?}", t);
                let (r2, old) = r.into(t.clone());
                same!("old body", show(&old), show(&body));
                check_req(&what, &r2, &m, t.as_bytes())?;
                let r3: Request<Vec<u8>> = r2.into_type();
                body = t.into_bytes();
                r = r3;
            }
            13 => {
                what = "into () and back".into();
                let (r2, old) = r.into(());
                same!("old body", show(&old), show(&body));
                check_req(&what, &r2, &m, b"")?;
                let (r3, ()) = r2.into(old);
                r = r3;
            }
            14 => {
                what = "into_type binary and back".into();
                let r2: Request<Binary> = r.into_type();
                check_req(&what, &r2, &m, &body)?;
                let (r3, old) = r2.into(body.clone());
                same!("old body", show(old.chunk()), show(&body));
                r = r3;
            }
            15 => {
                let b = a_body(src);
                what = format!("replace_clone {}", show(&b));
                let copy = r.replace_clone(b.clone());
                let mut m2 = Req { method: m.method.clone(), url: m.url.clone(), version: m.version, headers: m.headers.clone(), ext: None, note: None, shared: m.shared.clone(), partial: m.partial };
                // which private extensions a clone keeps is not promised, the
                // shared compression state is
                m2.ext = copy.extensions().get::<u32>().copied();
                m2.note = copy.extensions().get::<String>().cloned();
                ensure!(m2.ext.is_none() || m2.ext == m.ext, "the clone has a foreign extension");
                check_req("the clone", &copy, &m2, &body)?;
                body = b;
                if src.chance(1, 3) {
                    // go on with the clone
                    let old = copy.body().clone();
                    r = copy;
                    m = m2;
                    body = old;
                }
            }
            _ => {
                what = "headers_body".into();
                let (h, b) = r.headers_body();
                same!("body beside the headers", show(b), show(&body));
                same_list("headers_body", h, &m.headers)?;
            }
        }
        log.push(what);
        check_req(log.last().unwrap(), &r, &m, &body).map_err(|e| format!("after {:?}: {}", log, e))?;
    }
    ctx.input("operations", &log);
    ctx.bytes("body", &body);
    ctx.nontrivial(log.len() >= 3);
    Ok(())
}

struct Res {
    status: u16,
    version: Version,
    headers: List,
    ext: Option<u32>,
    note: Option<String>,
    shared: Option<Shared>,
    partial: bool,
}
fn check_res<T: Serialize + Bytes>(what: &str, r: &Response<T>, m: &Res, body: &[u8]) -> R {
    same!(format!("{}: status", what), r.status().as_u16(), m.status);
    same!(format!("{}: version", what), r.version(), m.version);
    same_list(what, r.headers(), &m.headers)?;
    same_ext(what, r.extensions(), &m.ext, &m.note)?;
    let shared = r.extensions().get::<Shared>();
    ensure!(
        match (shared, &m.shared) {
            (Some(a), Some(b)) => Arc::ptr_eq(a, b),
            (None, None) => true,
            _ => false,
        },
        "{}: shared compression state {} instead of {}",
        what,
        shared.is_some(),
        m.shared.is_some()
    );
    same!(format!("{}: partial", what), r.is_partial(), m.partial);
    same!(format!("{}: body", what), show(&r.body().b()), show(body));
    Ok(())
}
fn response_history(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut body = a_body(src);
    let mut m = Res { status: 200, version: Version::Http11, headers: vec![], ext: None, note: None, shared: None, partial: false };
    let mut r: Response<Vec<u8>> = match src.upto(3) {
        0 => {
            ctx.class("new");
            Response::new(body.clone())
        }
        1 => {
            ctx.class("built");
            m.headers = simple_headers(src);
            m.status = src.pick(CODES).0;
            let r = Response::builder().status(m.status).headers(mk_map(src, &m.headers)).body(body.clone()).map_err(|e| format!("{:?}", e))?;
            m.headers = map_list(r.headers());
            r
        }
        k => {
            let head = b"HTTP/1.0 404 Not Found\r\nServer: x\r\nX-A: 1\r\n\r\n";
            let mut r = Response::new(body.clone());
            m.version = Version::Http10;
            m.status = 404;
            m.headers = vec![("server".into(), b"x".to_vec()), ("x-a".into(), b"1".to_vec())];
            if k == 2 {
                ctx.class("parsed");
                r.parse(head).map_err(|e| format!("{:?}", e))?;
            } else {
                ctx.class("partly parsed");
                let cut = head.len() - src.range(1, 3) as usize;
                ensure!(r.parse(&head[..cut]).is_err(), "a truncated response is accepted");
                m.partial = true;
                m.status = r.status().as_u16();
                m.version = r.version();
                m.headers = map_list(r.headers());
            }
            r
        }
    };
    check_res("start", &r, &m, &body)?;
    let mut log: Vec<String> = vec![];
    for _ in 0..src.range(1, 14) {
        let what: String;
        match src.upto(15) {
            0 => {
                let n = src.range(100, 999) as u16;
                what = format!("status_mut {}", n);
                *r.status_mut() = StatusCode::from_u16(n).map_err(|_| "refused")?;
                m.status = n;
            }
            1 => {
                let t = *src.pick(versions());
                what = format!("version_mut {}", t);
                *r.version_mut() = version_of(t);
                m.version = version_of(t);
            }
            2 | 3 => {
                let (name, v) = (a_name(src), hvalue(src));
                what = format!("header {} = {}", name, show(&v));
                let (k, x) = (mk_name(src, &name), mk_value(src, &v));
                match src.upto(1) {
                    0 => r.headers_mut().insert(k, x),
                    _ => r.headers_body_mut().0.insert(k, x),
                };
                put(&mut m.headers, &name, &v);
            }
            4 => {
                let name = a_name(src);
                what = format!("remove {}", name);
                let had = m.headers.iter().position(|x| x.0.eq_ignore_ascii_case(&name)).map(|i| m.headers.remove(i).1);
                same!("removed value", r.headers_mut().remove(&name).map(|v| v.as_bytes().to_vec()), had);
            }
            5 => {
                let x = src.scaled(32) as u32;
                what = format!("extension {}", x);
                r.extensions_mut().insert(x);
                m.ext = Some(x);
                if src.bool() {
                    let t = text(src, 4);
                    r.extensions_mut().insert(t.clone());
                    m.note = Some(t);
                }
            }
            6 => {
                what = "shared state".into();
                let s: Shared = Arc::new(RwLock::new(HeaderIndex::new()));
                r.extensions_mut().insert(s.clone());
                m.shared = Some(s);
            }
            7 => {
                let b = a_body(src);
                what = format!("replace body {}", show(&b));
                match src.upto(2) {
                    0 => *r.body_mut() = b.clone(),
                    1 => *r.headers_body_mut().1 = b.clone(),
                    _ => r.replace_body(b.clone()),
                }
                body = b;
            }
            8 => {
                let t = text(src, 20);
                what = format!("into text {:?}", t);
                let (r2, old) = r.into(t.clone());
                same!("old body", show(&old), show(&body));
                check_res(&what, &r2, &m, t.as_bytes())?;
                r = r2.into_type();
                body = t.into_bytes();
            }
            9 => {
                what = "map to its length".into();
                let r2 = r.map(|b| format!("{}", b.len()));
                let t = body.len().to_string();
                check_res(&what, &r2, &m, t.as_bytes())?;
                r = r2.map(|s| s.into_bytes());
                body = t.into_bytes();
            }
            10 => {
                what = "into_binary".into();
                let r2 = r.into_binary();
                check_res(&what, &r2, &m, &body)?;
                r = r2.map(|b| b.chunk().to_vec());
            }
            11 => {
                what = "text into_binary".into();
                let t = text(src, 12);
                let r2 = r.into(t.clone()).0.into_binary();
                check_res(&what, &r2, &m, t.as_bytes())?;
                body = t.into_bytes();
                r = r2.map(|b| b.chunk().to_vec());
            }
            12 => {
                what = "into_parts and from_parts".into();
                let (p, b) = r.into_parts();
                same!("body taken out", show(&b), show(&body));
                same!("status of the parts", p.status.as_u16(), m.status);
                same!("version of the parts", p.version, m.version);
                same_list("parts", &p.header, &m.headers)?;
                r = Response::from_parts(p, b);
                m.partial = false;
            }
            13 => {
                let b = a_body(src);
                what = format!("replace_clone {}", show(&b));
                let copy = r.replace_clone(b.clone());
                let m2 = Res {
                    status: m.status,
                    version: m.version,
                    headers: m.headers.clone(),
                    ext: copy.extensions().get::<u32>().copied(),
                    note: copy.extensions().get::<String>().cloned(),
                    shared: m.shared.clone(),
                    partial: m.partial,
                };
                ensure!(m2.ext.is_none() || m2.ext == m.ext, "the clone has a foreign extension");
                check_res("the clone", &copy, &m2, &body)?;
                body = b;
                if src.chance(1, 3) {
                    body = copy.body().clone();
                    r = copy;
                    m = m2;
                }
            }
            14 => {
                what = "serialise".into();
                // serialising changes nothing
                let d = r.httpdata();
                if let Ok(d) = d {
                    ensure!(d.ends_with(&body), "the serialised response does not end with its body");
                    let first = format!("{} {}", m.version, m.status);
                    ensure!(d.starts_with(first.as_bytes()), "status line of {}, expected {:?}", show(&d), first);
                }
            }
            _ => {
                what = "headers_body".into();
                let (h, b) = r.headers_body();
                same!("body beside the headers", show(b), show(&body));
                same_list("headers_body", h, &m.headers)?;
            }
        }
        log.push(what);
        check_res(log.last().unwrap(), &r, &m, &body).map_err(|e| format!("after {:?}: {}", log, e))?;
    }
    ctx.input("operations", &log);
    ctx.bytes("body", &body);
    ctx.nontrivial(log.len() >= 3);
    same!("body at the end", show(&r.into_body()), show(&body));
    Ok(())
}
pub fn c36() -> Prop {
    Prop {
        id: "",
        rule: "histories of 1-14 setters, header edits, extension insertions and conversions (into, into_type, map, into_binary, into_parts/from_parts, replace_body, replace_clone) on built, parsed, partly parsed and assembled messages, every part compared with a model after each step. Non-trivial: at least three operations.",
        assumptions: &["header names are RFC 7230 tokens, values contain no CR/LF"],
        subs: vec![
            sub("request_history", Kind::Random(8_000), request_history),
            sub("response_history", Kind::Random(8_000), response_history),
        ],
    }
}

// ------------------------------------------------------------------ C37
fn authority(u: &Url) -> String {
    let d = match &u.domain {
        None => return String::new(),
        Some(d) => d,
    };
    let hidden = match (&u.scheme, u.port) {
        (Scheme::None, _) | (_, None) => true,
        (Scheme::Http, Some(80)) | (Scheme::Https, Some(443)) => true,
        _ => false,
    };
    match u.port {
        Some(p) if !hidden => format!("{}:{}", d, p),
        _ => d.clone(),
    }
}
fn check_url<D: Debug>(what: &D, u: &Url, m: &Url) -> R {
    same!(format!("{:?}: scheme", what), u.scheme, m.scheme);
    same!(format!("{:?}: user", what), (&u.username, &u.password), (&m.username, &m.password));
    same!(format!("{:?}: host", what), u.domain, m.domain);
    same!(format!("{:?}: port", what), u.port, m.port);
    same!(format!("{:?}: path", what), u.path, m.path);
    same!(format!("{:?}: query", what), u.query, m.query);
    ensure!(u == m, "{:?}: equal components and unequal URLs", what);
    same!(format!("{:?}: authority", what), u.get_authority(), authority(m));
    same!(format!("{:?}: connection address", what), u.get_connect_url(), connect(m));
    same!(format!("{:?}: scheme text", what), u.get_scheme(), m.scheme.as_str());
    Ok(())
}
fn any_port(src: &mut Src) -> u16 {
    match src.upto(3) {
        0 => *src.pick(&[80u16, 443, 21, 0, 65535, 8080]),
        _ => port(src),
    }
}
fn url_builder(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut b = if src.bool() { Url::builder() } else { webparse::url::Builder::new() };
    let mut m = Url::new();
    let mut bad = false;
    let mut log = vec![];
    for _ in 0..src.range(0, 12) {
        match src.upto(8) {
            0 => {
                let s = scheme(src);
                log.push(format!("scheme {:?}", s));
                let t = s.as_str().to_string();
                b = if src.bool() { b.scheme(&*t) } else { b.scheme(s.clone()) };
                m.scheme = s;
            }
            1 => {
                let t = text(src, 8);
                log.push(format!("username {:?}", t));
                b = b.username(t.clone());
                m.username = Some(t);
            }
            2 => {
                let t = text(src, 8);
                log.push(format!("password {:?}", t));
                b = b.password(t.clone());
                m.password = Some(t);
            }
            3 | 4 => {
                let t = if src.bool() { host(src) } else { text(src, 8) };
                log.push(format!("domain {:?}", t));
                b = if src.bool() { b.domain(&*t) } else { b.domain(t.clone()) };
                m.domain = Some(t);
            }
            5 => {
                let p = any_port(src);
                log.push(format!("port {}", p));
                b = b.port(p);
                m.port = Some(p);
            }
            6 => {
                let t = text(src, 8);
                log.push(format!("path {:?}", t));
                b = b.path(t.clone());
                m.path = t;
            }
            7 => {
                let t = text(src, 8);
                log.push(format!("query {:?}", t));
                b = b.query(t.clone());
                m.query = Some(t);
            }
            _ => {
                if src.chance(1, 3) {
                    let n = src.range(65, 90) as usize;
                    let t = "s".repeat(n);
                    log.push(format!("scheme of {} bytes", n));
                    b = b.scheme(&*t);
                    bad = true;
                }
            }
        }
    }
    ctx.input("calls", &log);
    ctx.nontrivial(log.len() >= 2);
    ctx.class(if bad { "refused scheme" } else { "legal" });
    match b.build() {
        Err(_) => ensure!(bad, "{:?}: refused", log),
        Ok(u) => {
            ensure!(!bad, "{:?}: a refused scheme and still a URL", log);
            check_url(&log, &u, &m)?;
        }
    }
    Ok(())
}
fn maybe_url(src: &mut Src) -> Url {
    let mut u = a_url(src);
    if u.port.is_some() && src.chance(1, 2) {
        u.port = Some(any_port(src));
    }
    if src.chance(1, 8) {
        u.path = "/".into();
    } else if src.chance(1, 8) {
        u.path = match src.upto(2) {
            0 => "*".into(),
            1 => String::new(),
            _ => text(src, 3),
        };
    }
    if src.chance(1, 3) {
        u.scheme = src.pick(&[Scheme::None, Scheme::Http, Scheme::Https]).clone();
    }
    u
}
fn url_merge(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut u = maybe_url(src);
    let mut m = u.clone();
    let n = src.range(1, 3);
    let mut log = vec![format!("{:?}", u)];
    for _ in 0..n {
        let o = if src.chance(1, 6) { Url::new() } else { maybe_url(src) };
        log.push(format!("{:?}", o));
        if o.scheme != Scheme::None {
            m.scheme = o.scheme.clone();
        }
        if o.path != "/" {
            m.path = o.path.clone();
        }
        m.username = o.username.clone().or(m.username);
        m.password = o.password.clone().or(m.password);
        m.domain = o.domain.clone().or(m.domain);
        m.port = o.port.filter(|p| *p != 0).or(m.port);
        m.query = o.query.clone().or(m.query);
        u.merge(o);
    }
    ctx.input("urls", &log);
    ctx.class(if n == 1 { "one merge" } else { "several merges" });
    ctx.nontrivial(u != Url::new());
    check_url(&log, &u, &m)?;
    // merging a URL into itself or into an empty one changes nothing
    let mut s = u.clone();
    s.merge(u.clone());
    same!("merged into itself", s, u);
    let mut e = Url::new();
    e.merge(u.clone());
    let mut want = u.clone();
    want.port = want.port.filter(|p| *p != 0);
    same!("merged into an empty URL", e, want);
    Ok(())
}
pub fn summaries(src: &mut Src, ctx: &mut Ctx) -> R {
    let u = maybe_url(src);
    ctx.input("url", &u);
    ctx.nontrivial(u.domain.is_some());
    ctx.class(if u.domain.is_some() { "host" } else { "no host" });
    check_url(&"value", &u, &u.clone())?;
    // the authority, put after a scheme, leads back to the same host and port
    if let (Some(d), Some(p)) = (&u.domain, u.port) {
        if d.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.' || b == b'-') && !d.is_empty() && matches!(u.scheme, Scheme::Http | Scheme::Https | Scheme::Ws | Scheme::Wss | Scheme::Ftp) && p != 0 {
            let t = format!("{}://{}/", u.get_scheme(), u.get_authority());
            let v = Url::from_str(&t).map_err(|e| format!("{:?} refused: {:?}", t, e))?;
            same!("connection address read back from the authority", v.get_connect_url(), u.get_connect_url());
            ctx.class("authority read back");
        }
    }
    Ok(())
}
pub fn c37() -> Prop {
    Prop {
        id: "",
        rule: "histories of 0-12 URL builder calls against a model URL; chains of 1-3 merges of generated URLs with many shared and default components; authority, scheme text and connection address against a reference and read back. Non-trivial: two calls, a non-empty result, or a host.",
        assumptions: &["a path '/' and a port 0 count as not set when merging"],
        subs: vec![
            sub("builder", Kind::Random(8_000), url_builder),
            sub("merge", Kind::Random(8_000), url_merge),
            sub("summaries", Kind::Random(8_000), summaries),
        ],
    }
}

