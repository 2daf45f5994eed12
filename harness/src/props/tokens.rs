//! C26 C27 C28 C35: status codes, protocol registries, extensions, header names.
use super::gen::{leak, recase, text, TCHAR};
use crate::engine::*;
use crate::{ensure, same};
use algorithm::buf::{BinaryMut, Bt};
use std::any::Any;
use std::str::FromStr;
use webparse::http2::frame::{ErrorCode, Kind as FrameKind, Reason, StreamIdentifier};
use webparse::ws::{CloseCode, Opcode};
use webparse::{Extensions, HeaderName, Method, Scheme, Serialize, StatusCode, Version};

// ------------------------------------------------------------------ C26
/// RFC 9110 / IANA registry.
pub const CODES: &[(u16, StatusCode, &str)] = &[
    (100, StatusCode::CONTINUE, "Continue"),
    (101, StatusCode::SWITCHING_PROTOCOLS, "Switching Protocols"),
    (102, StatusCode::PROCESSING, "Processing"),
    (200, StatusCode::OK, "OK"),
    (201, StatusCode::CREATED, "Created"),
    (202, StatusCode::ACCEPTED, "Accepted"),
    (203, StatusCode::NON_AUTHORITATIVE_INFORMATION, "Non Authoritative Information"),
    (204, StatusCode::NO_CONTENT, "No Content"),
    (205, StatusCode::RESET_CONTENT, "Reset Content"),
    (206, StatusCode::PARTIAL_CONTENT, "Partial Content"),
    (207, StatusCode::MULTI_STATUS, "Multi-Status"),
    (208, StatusCode::ALREADY_REPORTED, "Already Reported"),
    (226, StatusCode::IM_USED, "IM Used"),
    (300, StatusCode::MULTIPLE_CHOICES, "Multiple Choices"),
    (301, StatusCode::MOVED_PERMANENTLY, "Moved Permanently"),
    (302, StatusCode::FOUND, "Found"),
    (303, StatusCode::SEE_OTHER, "See Other"),
    (304, StatusCode::NOT_MODIFIED, "Not Modified"),
    (305, StatusCode::USE_PROXY, "Use Proxy"),
    (307, StatusCode::TEMPORARY_REDIRECT, "Temporary Redirect"),
    (308, StatusCode::PERMANENT_REDIRECT, "Permanent Redirect"),
    (400, StatusCode::BAD_REQUEST, "Bad Request"),
    (401, StatusCode::UNAUTHORIZED, "Unauthorized"),
    (402, StatusCode::PAYMENT_REQUIRED, "Payment Required"),
    (403, StatusCode::FORBIDDEN, "Forbidden"),
    (404, StatusCode::NOT_FOUND, "Not Found"),
    (405, StatusCode::METHOD_NOT_ALLOWED, "Method Not Allowed"),
    (406, StatusCode::NOT_ACCEPTABLE, "Not Acceptable"),
    (407, StatusCode::PROXY_AUTHENTICATION_REQUIRED, "Proxy Authentication Required"),
    (408, StatusCode::REQUEST_TIMEOUT, "Request Timeout"),
    (409, StatusCode::CONFLICT, "Conflict"),
    (410, StatusCode::GONE, "Gone"),
    (411, StatusCode::LENGTH_REQUIRED, "Length Required"),
    (412, StatusCode::PRECONDITION_FAILED, "Precondition Failed"),
    (413, StatusCode::PAYLOAD_TOO_LARGE, "Payload Too Large"),
    (414, StatusCode::URI_TOO_LONG, "URI Too Long"),
    (415, StatusCode::UNSUPPORTED_MEDIA_TYPE, "Unsupported Media Type"),
    (416, StatusCode::RANGE_NOT_SATISFIABLE, "Range Not Satisfiable"),
    (417, StatusCode::EXPECTATION_FAILED, "Expectation Failed"),
    (418, StatusCode::IM_A_TEAPOT, "I'm a teapot"),
    (421, StatusCode::MISDIRECTED_REQUEST, "Misdirected Request"),
    (422, StatusCode::UNPROCESSABLE_ENTITY, "Unprocessable Entity"),
    (423, StatusCode::LOCKED, "Locked"),
    (424, StatusCode::FAILED_DEPENDENCY, "Failed Dependency"),
    (426, StatusCode::UPGRADE_REQUIRED, "Upgrade Required"),
    (428, StatusCode::PRECONDITION_REQUIRED, "Precondition Required"),
    (429, StatusCode::TOO_MANY_REQUESTS, "Too Many Requests"),
    (431, StatusCode::REQUEST_HEADER_FIELDS_TOO_LARGE, "Request Header Fields Too Large"),
    (451, StatusCode::UNAVAILABLE_FOR_LEGAL_REASONS, "Unavailable For Legal Reasons"),
    (500, StatusCode::INTERNAL_SERVER_ERROR, "Internal Server Error"),
    (501, StatusCode::NOT_IMPLEMENTED, "Not Implemented"),
    (502, StatusCode::BAD_GATEWAY, "Bad Gateway"),
    (503, StatusCode::SERVICE_UNAVAILABLE, "Service Unavailable"),
    (504, StatusCode::GATEWAY_TIMEOUT, "Gateway Timeout"),
    (505, StatusCode::HTTP_VERSION_NOT_SUPPORTED, "HTTP Version Not Supported"),
    (506, StatusCode::VARIANT_ALSO_NEGOTIATES, "Variant Also Negotiates"),
    (507, StatusCode::INSUFFICIENT_STORAGE, "Insufficient Storage"),
    (508, StatusCode::LOOP_DETECTED, "Loop Detected"),
    (510, StatusCode::NOT_EXTENDED, "Not Extended"),
    (511, StatusCode::NETWORK_AUTHENTICATION_REQUIRED, "Network Authentication Required"),
];

/// Everything a status code says about itself agrees with `n`.
fn agrees(s: StatusCode, n: u16) -> R {
    let digits = n.to_string();
    same!("as_u16", s.as_u16(), n);
    same!("u16::from", u16::from(s), n);
    same!("as_str", s.as_str(), digits.as_str());
    same!("text read back", StatusCode::from_bytes(s.as_str().as_bytes()).ok().map(|x| x.as_u16()), Some(n));
    ensure!(s == n && n == s, "{} is not equal to its own number", n);
    for other in [n + 1, n - 1, n ^ 1, n + 100, 0, u16::MAX] {
        ensure!(!(s == other) && !(other == s), "{} is equal to {}", n, other);
    }
    let c = n / 100;
    same!("class predicates of ".to_string() + &digits,
        [s.is_informational(), s.is_success(), s.is_redirection(), s.is_client_error(), s.is_server_error()],
        [c == 1, c == 2, c == 3, c == 4, c == 5]);
    let (name, value) = s.build_header();
    same!("pseudo-header name", name.name(), ":status");
    same!("pseudo-header value", show(value.as_bytes()), digits);
    let phrase = CODES.iter().find(|x| x.0 == n).map(|x| x.2);
    same!("canonical reason of ".to_string() + &digits, s.canonical_reason(), phrase);
    same!("Display", s.to_string(), format!("{} {}", n, phrase.unwrap_or("<unknown status code>")));
    let mut buf = BinaryMut::from(b"<>".to_vec());
    let mut m = s;
    match (m.encode(&mut buf), phrase) {
        (Ok(size), Some(p)) => {
            let want = format!("<>{} {}\r\n", n, p);
            same!("HTTP/1 line", show(buf.chunk()), show(want.as_bytes()));
            same!("size of the line", size, want.len() - 2);
        }
        (Err(_), None) => same!("bytes written for a refused code", show(buf.chunk()), "<>"),
        (r, p) => return Err(format!("encoding {}: {:?}, phrase {:?}", n, r, p)),
    }
    Ok(())
}
fn c26_number(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.index as u16;
    ctx.input("number", &n);
    let legal = (100..1000).contains(&n);
    ctx.nontrivial(legal || n == 99 || n == 1000);
    ctx.class(if legal { "three-digit number" } else { "other number" });
    let a = StatusCode::from_u16(n);
    let b = StatusCode::try_from(n);
    ensure!(a.is_ok() == legal, "from_u16({}) gives {:?}", n, a.map(|x| x.as_u16()));
    ensure!(b.is_ok() == legal, "try_from({}) gives {:?}", n, b.map(|x| x.as_u16()));
    let t = n.to_string();
    let c = StatusCode::from_bytes(t.as_bytes());
    ensure!(c.is_ok() == legal, "from_bytes({:?}) gives {:?}", t, c.map(|x| x.as_u16()));
    if legal {
        agrees(a.unwrap(), n)?;
        agrees(b.unwrap(), n)?;
        agrees(c.unwrap(), n)?;
        for (k, konst, _) in CODES {
            same!("constant", konst.as_u16(), *k);
            let s = StatusCode::from_u16(n).unwrap();
            same!("ordering", s.cmp(konst), n.cmp(k));
            same!("partial ordering", s.partial_cmp(konst), Some(n.cmp(k)));
            same!("equality", s == *konst, n == *k);
        }
    }
    Ok(())
}
fn text_case(t: &[u8]) -> R {
    let want = if t.len() == 3 && t.iter().all(|b| b.is_ascii_digit()) && t[0] != b'0' {
        Some((t[0] - b'0') as u16 * 100 + (t[1] - b'0') as u16 * 10 + (t[2] - b'0') as u16)
    } else {
        None
    };
    let got = |r: webparse::WebResult<StatusCode>| r.ok().map(|s| s.as_u16());
    same!(format!("from_bytes({:?})", show(t)), got(StatusCode::from_bytes(t)), want);
    same!(format!("try_from bytes {:?}", show(t)), got(StatusCode::try_from(t)), want);
    if let Ok(s) = std::str::from_utf8(t) {
        same!(format!("from_str({:?})", s), got(StatusCode::from_str(s)), want);
        same!(format!("try_from {:?}", s), got(StatusCode::try_from(s)), want);
    }
    Ok(())
}
const EDGE: &[u8] = b"0123456789/: \t+-aA.\0\xb0\xff";
fn c26_short(src: &mut Src, ctx: &mut Ctx) -> R {
    // every first byte, then all pairs over the digits and their neighbours
    let a = src.index as u8;
    ctx.input("first byte", &a);
    ctx.nontrivial(true);
    text_case(&[])?;
    text_case(&[a])?;
    for b in 0..=255u8 {
        text_case(&[a, b])?;
        for x in [b'0', b'9', b'4'] {
            text_case(&[a, b, x])?;
            text_case(&[a, x, b])?;
            text_case(&[x, a, b])?;
        }
    }
    for b in EDGE {
        for c in EDGE {
            text_case(&[a, *b, *c])?;
        }
    }
    Ok(())
}
fn c26_text(src: &mut Src, ctx: &mut Ctx) -> R {
    let t: Vec<u8> = match src.upto(3) {
        0 => {
            let n = src.range(3, 6) as usize;
            (0..n).map(|_| *src.pick(EDGE)).collect()
        }
        1 => {
            let mut t = src.upto(1999).to_string().into_bytes();
            let at = src.below(t.len() + 1);
            t.insert(at, *src.pick(b" 0+-.\x00\t"));
            t
        }
        2 => text(src, 6).into_bytes(),
        _ => src.bytes(40),
    };
    ctx.bytes("text", &t);
    ctx.nontrivial(t.iter().any(|b| b.is_ascii_digit()));
    text_case(&t)
}
fn c26_order(src: &mut Src, ctx: &mut Ctx) -> R {
    let a = src.range(100, 999) as u16;
    let b = if src.bool() { src.range(100, 999) as u16 } else { (a as u64 + src.upto(2)).clamp(100, 999) as u16 };
    ctx.input("pair", &(a, b));
    ctx.nontrivial(a != b);
    let (x, y) = (StatusCode::from_u16(a).unwrap(), StatusCode::from_bytes(b.to_string().as_bytes()).unwrap());
    same!("order", x.cmp(&y), a.cmp(&b));
    same!("equality", x == y, a == b);
    same!("<", x < y, a < b);
    let h = |s: &StatusCode| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        h.finish()
    };
    same!("hashes agree", h(&x) == h(&y), a == b);
    Ok(())
}
pub fn c26() -> Prop {
    Prop {
        id: "",
        rule: "a three-digit number or one next to the limits, a text containing a digit, or a pair of different codes",
        assumptions: &["the registered phrases are those of the IANA registry as listed in the harness (RFC 9110 and extensions), 203 without hyphen as the library spells it"],
        subs: vec![
            sub("every-number", Kind::Every(65536), c26_number),
            sub("short-texts", Kind::Every(256), c26_short),
            sub("texts", Kind::Random(40_000), c26_text),
            sub("pairs", Kind::Random(40_000), c26_order),
        ],
    }
}

// ------------------------------------------------------------------ C27
fn method_table() -> Vec<(&'static str, Method)> {
    vec![
        ("GET", Method::GET), ("POST", Method::POST), ("PUT", Method::PUT), ("DELETE", Method::DELETE), ("HEAD", Method::HEAD),
        ("OPTIONS", Method::OPTIONS), ("CONNECT", Method::CONNECT), ("PATCH", Method::PATCH), ("TRACE", Method::TRACE),
    ]
}
fn version_table() -> Vec<(&'static str, Version)> {
    vec![("HTTP/1.0", Version::Http10), ("HTTP/1.1", Version::Http11), ("HTTP/2", Version::Http2), ("HTTP/3", Version::Http3)]
}
fn scheme_table() -> Vec<(&'static str, Scheme)> {
    vec![("http", Scheme::Http), ("https", Scheme::Https), ("ws", Scheme::Ws), ("wss", Scheme::Wss), ("ftp", Scheme::Ftp)]
}
fn near(src: &mut Src, members: &[&str]) -> String {
    let m = *src.pick(members);
    match src.upto(7) {
        0 => m.to_string(),
        1 => recase(src, m),
        2 => {
            let mut t = m.to_string();
            let at = src.below(t.len() + 1);
            t.insert(at, *src.pick(&[' ', 'x', 'S', 's', '\0', '\t', '1', '.', 'ſ', 'K', 'İ']));
            t
        }
        3 => {
            let mut t: Vec<char> = m.chars().collect();
            let at = src.below(t.len());
            t[at] = *src.pick(&[' ', 'x', 'S', '\0', 'ſ', 'K', 'ı', 'é', 'Ｔ', '0', 't']);
            t.into_iter().collect()
        }
        4 => {
            let mut t: Vec<char> = m.chars().collect();
            let at = src.below(t.len());
            t.remove(at);
            t.into_iter().collect()
        }
        5 => format!("{}{}", m, src.pick(members)),
        6 => {
            let n = src.size(80);
            (0..n).map(|_| *src.pick(TCHAR) as char).collect()
        }
        _ => text(src, 70),
    }
}
fn enc<T>(what: &str, f: impl FnOnce(&mut BinaryMut) -> webparse::WebResult<T>) -> Result<(Option<T>, Vec<u8>), String> {
    let mut b = BinaryMut::from(b"#".to_vec());
    let r = f(&mut b).ok();
    let out = b.chunk().to_vec();
    ensure!(out.first() == Some(&b'#'), "{}: earlier bytes of the buffer changed", what);
    Ok((r, out[1..].to_vec()))
}
fn c27_members(src: &mut Src, ctx: &mut Ctx) -> R {
    let _ = src;
    ctx.nontrivial(true);
    let ms = method_table();
    for (i, (t, m)) in ms.iter().enumerate() {
        ctx.input("method", t);
        same!("method as_str", m.as_str(), *t);
        same!("method Display", m.to_string(), *t);
        same!("method from text", Method::try_from(*t).ok().as_ref(), Some(m));
        same!("method parse", t.parse::<Method>().ok().as_ref(), Some(m));
        let (n, out) = enc("method", |b| m.clone().encode(b))?;
        same!("encoded method", (n, show(&out)), (Some(t.len()), t.to_string()));
        // GET carries no request body, HEAD, OPTIONS and CONNECT neither a request nor a response body
        let none = matches!(*t, "HEAD" | "OPTIONS" | "CONNECT");
        same!(format!("{} without a request body, without a response body", t), (m.is_nobody(), m.res_nobody()), (none || *t == "GET", none));
        for (_, o) in &ms[i + 1..] {
            ensure!(m != o, "{:?} equals {:?}", m, o);
        }
    }
    let (n, out) = enc("method", |b| Method::None.encode(b))?;
    same!("encoding no method", (n, out.len()), (None, 0));
    let vs = version_table();
    for (i, (t, v)) in vs.iter().enumerate() {
        ctx.input("version", t);
        same!("version as_str", v.as_str(), *t);
        same!("version Display", v.to_string(), *t);
        same!("version from text", Version::from(*t), *v);
        same!("HTTP/1 and HTTP/2 predicates", (v.is_http1(), v.is_http2()), (t.starts_with("HTTP/1."), *t == "HTTP/2"));
        let (n, out) = enc("version", |b| { let mut v = *v; v.encode(b) })?;
        same!("encoded version", (n, show(&out)), (Some(t.len()), t.to_string()));
        for (_, o) in &vs[i + 1..] {
            ensure!(v != o, "{:?} equals {:?}", v, o);
        }
    }
    let (n, out) = enc("version", |b| { let mut v = Version::None; v.encode(b) })?;
    same!("encoding no version", (n, out.len()), (None, 0));
    same!("predicates of no version", (Version::None.is_http1(), Version::None.is_http2()), (false, false));
    let ss = scheme_table();
    for (i, (t, s)) in ss.iter().enumerate() {
        ctx.input("scheme", t);
        same!("scheme as_str", s.as_str(), *t);
        same!("scheme Display", s.to_string(), *t);
        same!("scheme from text", Scheme::try_from(*t).ok().as_ref(), Some(s));
        same!("scheme parse", t.parse::<Scheme>().ok().as_ref(), Some(s));
        same!("scheme parse, upper case", t.to_ascii_uppercase().parse::<Scheme>().ok().as_ref(), Some(s));
        same!("scheme predicates",
            [s.is_none(), s.is_http(), s.is_https(), s.is_ws(), s.is_wss()],
            [false, *t == "http", *t == "https", *t == "ws", *t == "wss"]);
        let (n, out) = enc("scheme", |b| s.clone().serialize(b))?;
        same!("encoded scheme", (n, show(&out)), (Some(t.len()), t.to_string()));
        for (_, o) in &ss[i + 1..] {
            ensure!(s != o, "{:?} equals {:?}", s, o);
        }
    }
    let (n, out) = enc("scheme", |b| Scheme::None.serialize(b))?;
    same!("encoding no scheme", (n, out.len()), (None, 0));
    ensure!(Scheme::None.is_none() && !Scheme::None.is_http() && !Scheme::None.is_https(), "predicates of no scheme");
    // HTTP/2 frame types
    let kinds = [
        FrameKind::Data, FrameKind::Headers, FrameKind::Priority, FrameKind::Reset, FrameKind::Settings,
        FrameKind::PushPromise, FrameKind::Ping, FrameKind::GoAway, FrameKind::WindowUpdate, FrameKind::Continuation,
    ];
    for b in 0..=255u8 {
        let k = FrameKind::new(b);
        match kinds.get(b as usize) {
            Some(want) => {
                same!("frame type", k, *want);
                same!("frame type code", k.encode(), b);
            }
            None => {
                same!("unregistered frame type", k, FrameKind::Unregistered);
                ensure!(k.encode() > 9, "an unregistered frame type is encoded as {}", k.encode());
            }
        }
        // WebSocket opcodes
        let ops = [
            Opcode::Continuation, Opcode::Text, Opcode::Binary, Opcode::NonControl1, Opcode::NonControl2, Opcode::NonControl3,
            Opcode::NonControl4, Opcode::NonControl5, Opcode::Close, Opcode::Ping, Opcode::Pong, Opcode::Control1,
            Opcode::Control2, Opcode::Control3, Opcode::Control4, Opcode::Control5,
        ];
        match ops.get(b as usize) {
            Some(want) => {
                same!("opcode", Opcode::new(b), Some(*want));
                same!("opcode number", *want as u8, b);
            }
            None => same!("opcode out of range", Opcode::new(b), None),
        }
    }
    // HTTP/2 error codes
    let names = [
        "NO_ERROR", "PROTOCOL_ERROR", "INTERNAL_ERROR", "FLOW_CONTROL_ERROR", "SETTINGS_TIMEOUT", "STREAM_CLOSED", "FRAME_SIZE_ERROR",
        "REFUSED_STREAM", "CANCEL", "COMPRESSION_ERROR", "CONNECT_ERROR", "ENHANCE_YOUR_CALM", "INADEQUATE_SECURITY", "HTTP_1_1_REQUIRED",
    ];
    let consts = [
        Reason::NO_ERROR, Reason::PROTOCOL_ERROR, Reason::INTERNAL_ERROR, Reason::FLOW_CONTROL_ERROR, Reason::SETTINGS_TIMEOUT,
        Reason::STREAM_CLOSED, Reason::FRAME_SIZE_ERROR, Reason::REFUSED_STREAM, Reason::CANCEL, Reason::COMPRESSION_ERROR,
        Reason::CONNECT_ERROR, Reason::ENHANCE_YOUR_CALM, Reason::INADEQUATE_SECURITY, Reason::HTTP_1_1_REQUIRED,
    ];
    let mut descriptions: Vec<String> = Vec::new();
    for (i, (name, c)) in names.iter().zip(consts).enumerate() {
        same!(name, u32::from(c), i as u32);
        same!(name, Reason::from(i as u32), c);
        same!("name of an error code", format!("{:?}", c), *name);
        same!("Display of an error code", c.to_string(), c.description());
        ensure!(c.description() != Reason::from(14).description(), "{} is described as unknown", name);
        ensure!(!descriptions.contains(&c.description().to_string()), "two error codes share the description {:?}", c.description());
        descriptions.push(c.description().to_string());
    }
    Ok(())
}
fn c27_close(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.index as u16;
    ctx.input("close code", &n);
    let named: &[(u16, CloseCode)] = &[
        (1000, CloseCode::Normal), (1001, CloseCode::Away), (1002, CloseCode::Protocol), (1003, CloseCode::Unsupported),
        (1005, CloseCode::Status), (1006, CloseCode::Abnormal), (1007, CloseCode::Invalid), (1008, CloseCode::Policy),
        (1009, CloseCode::Size), (1010, CloseCode::Extension), (1011, CloseCode::Error), (1012, CloseCode::Restart),
        (1013, CloseCode::Again), (1015, CloseCode::Tls), (0, CloseCode::Empty),
    ];
    ctx.nontrivial((990..1030).contains(&n) || n == 0);
    let c = CloseCode::from(n);
    let back: u16 = c.into();
    same!("close code to number", back, n);
    let want = named.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(CloseCode::Other(n));
    same!("close code", c, want);
    let back: u16 = want.into();
    same!("named close code to number", back, n);
    Ok(())
}
fn c27_tokens(src: &mut Src, ctx: &mut Ctx) -> R {
    let which = src.upto(2);
    match which {
        0 => {
            let ms = method_table();
            let names: Vec<&str> = ms.iter().map(|x| x.0).collect();
            let t = near(src, &names);
            ctx.input("method", &t);
            let exact = ms.iter().find(|x| x.0 == t).map(|x| &x.1);
            let folded = ms.iter().find(|x| x.0.eq_ignore_ascii_case(&t)).map(|x| &x.1);
            ctx.nontrivial(true);
            ctx.class(if exact.is_some() { "method" } else if folded.is_some() { "method in other case" } else { "not a method" });
            same!(format!("Method::try_from({:?})", t), Method::try_from(&*t).ok().as_ref(), exact);
            same!(format!("{:?} parsed as a method", t), t.parse::<Method>().ok().as_ref(), folded);
            let m = Method::Extension(t.clone());
            ensure!(exact.is_some() || !m.is_nobody() && !m.res_nobody(), "extension method {:?} is said to carry no body", t);
            same!("extension method text", (m.as_str().to_string(), m.to_string()), (t.clone(), t));
        }
        1 => {
            let vs = version_table();
            let all = src.bool();
            let mut names: Vec<&str> = vs.iter().map(|x| x.0).collect();
            names.extend_from_slice(&["HTTP/0.9", "HTTP/1", "HTTP/2.0", "HTTP/11", "None"]);
            let t = near(src, if all { &names } else { &names[..4] });
            ctx.input("version", &t);
            ctx.nontrivial(true);
            let want = vs.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or(Version::None);
            ctx.class(if want == Version::None { "not a version" } else { "version" });
            same!(format!("Version::from({:?})", t), Version::from(&*t), want);
        }
        _ => {
            let ss = scheme_table();
            let names: Vec<&str> = ss.iter().map(|x| x.0).collect();
            let t = near(src, &names);
            ctx.input("scheme", &t);
            ctx.nontrivial(true);
            let got = Scheme::try_from(&*t);
            if t.len() > 64 {
                ctx.class("scheme too long");
                ensure!(got.is_err(), "a scheme of {} bytes is accepted", t.len());
                ensure!(!t.is_ascii() || t.parse::<Scheme>().is_err(), "a scheme of {} bytes is parsed", t.len());
                return Ok(());
            }
            let want = ss.iter().find(|x| x.0 == t).map(|x| x.1.clone()).unwrap_or(Scheme::Extension(t.clone()));
            ctx.class(if matches!(want, Scheme::Extension(_)) { "other scheme" } else { "known scheme" });
            same!(format!("Scheme::try_from({:?})", t), got.as_ref().ok(), Some(&want));
            same!("scheme text", want.as_str(), t.as_str());
            same!("scheme Display", want.to_string(), t);
            let (n, out) = enc("scheme", |b| want.clone().serialize(b))?;
            same!("encoded scheme", (n, out), (Some(t.len()), t.clone().into_bytes()));
            if t.is_ascii() {
                let low = t.to_ascii_lowercase();
                let want = ss.iter().find(|x| x.0 == low).map(|x| x.1.clone()).unwrap_or(Scheme::Extension(low));
                same!(format!("{:?} parsed as a scheme", t), t.parse::<Scheme>().ok(), Some(want));
            }
        }
    }
    Ok(())
}
fn c27_numbers(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.scaled(32) as u32;
    ctx.input("number", &n);
    ctx.nontrivial(n > 13);
    let r = Reason::from(n);
    same!("error code", u32::from(r), n);
    let m = src.scaled(32) as u32;
    same!("equality of error codes", r == Reason::from(m), n == m);
    if n > 13 {
        let d = format!("{:?}", r);
        ensure!(d.contains(&format!("{:x}", n)), "unknown error code {:#x} is shown as {:?}", n, d);
        same!("description of an unknown code", r.description(), Reason::from(14).description());
    }
    let wire = n.to_be_bytes();
    let mut b = &wire[..];
    same!("error code from bytes", ErrorCode::parse(&mut b).0, n);
    let (size, out) = enc("error code", |b| ErrorCode(n).serialize(b))?;
    same!("error code bytes", (size, out), (Some(4), wire.to_vec()));
    let mut b = &wire[..];
    same!("stream identifier from bytes", StreamIdentifier::parse(&mut b).0, n & 0x7fff_ffff);
    same!("stream identifier consumed", b.len(), 0);
    let s = StreamIdentifier::from(n & 0x7fff_ffff);
    let (size, out) = enc("stream identifier", |b| s.encode(b))?;
    same!("stream identifier bytes", (size, out), (Some(4), (n & 0x7fff_ffff).to_be_bytes().to_vec()));
    same!("stream identifier text", s.to_string(), (n & 0x7fff_ffff).to_string());
    same!("stream identifier zero", s.is_zero(), n & 0x7fff_ffff == 0);
    let t = StreamIdentifier::from(m & 0x7fff_ffff);
    same!("stream identifier order", s.cmp(&t), (n & 0x7fff_ffff).cmp(&(m & 0x7fff_ffff)));
    // identifiers are handed out in steps of two, keeping their parity
    let mut id = if n % 2 == 0 { StreamIdentifier::server_first() } else { StreamIdentifier::client_first() };
    let mut want = 2 - n % 2;
    for _ in 0..src.upto(5) {
        same!("next stream identifier", id.next_id().0, want);
        want += 2;
        same!("identifier after that", id.0, want);
    }
    Ok(())
}
pub fn c27() -> Prop {
    Prop {
        id: "",
        rule: "a token at or near a registry member, or a number outside the small registry",
        assumptions: &["schemes are ASCII when their letter case is ignored", "the catch-all frame type Unregistered does not keep the number it was read from"],
        subs: vec![
            sub("members", Kind::Every(1), c27_members),
            sub("close-codes", Kind::Every(65536), c27_close),
            sub("tokens", Kind::Random(60_000), c27_tokens),
            sub("numbers", Kind::Random(40_000), c27_numbers),
        ],
    }
}

// ------------------------------------------------------------------ C28
#[derive(Debug, Clone, PartialEq)]
struct Wrap(u32);
#[derive(Debug, Clone, PartialEq)]
struct Wrap2(u32);
#[derive(Debug, Clone, PartialEq)]
struct Generic<T>(u32, T);
#[derive(Debug, Clone, PartialEq)]
struct Unit;
/// A value type: made from a number and read back as one.
trait Val: Any + Send + Sync + Clone + PartialEq + std::fmt::Debug {
    fn of(n: u32) -> Self;
}
impl Val for u32 { fn of(n: u32) -> u32 { n } }
impl Val for i32 { fn of(n: u32) -> i32 { n as i32 } }
impl Val for u64 { fn of(n: u32) -> u64 { n as u64 } }
impl Val for u8 { fn of(n: u32) -> u8 { n as u8 } }
impl Val for bool { fn of(n: u32) -> bool { n % 2 == 1 } }
impl Val for String { fn of(n: u32) -> String { format!("s{}", n) } }
impl Val for &'static str { fn of(n: u32) -> &'static str { leak(&format!("t{}", n % 64)) } }
impl Val for Vec<u8> { fn of(n: u32) -> Vec<u8> { vec![n as u8; n as usize % 5] } }
impl Val for Wrap { fn of(n: u32) -> Wrap { Wrap(n) } }
impl Val for Wrap2 { fn of(n: u32) -> Wrap2 { Wrap2(n) } }
impl Val for Generic<u8> { fn of(n: u32) -> Self { Generic(n, n as u8) } }
impl Val for Generic<u16> { fn of(n: u32) -> Self { Generic(n, n as u16) } }
impl Val for Unit { fn of(_: u32) -> Unit { Unit } }
impl Val for [u32; 3] { fn of(n: u32) -> [u32; 3] { [n; 3] } }
impl Val for Option<u32> { fn of(n: u32) -> Option<u32> { if n % 3 == 0 { None } else { Some(n) } } }
impl Val for Box<u32> { fn of(n: u32) -> Box<u32> { Box::new(n) } }
const TYPES: usize = 16;

/// The model: for each type, the number its value was made from.
type Model = [Option<u32>; TYPES];

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(u32),
    Get,
    GetMut(Option<u32>),
    Remove,
}
fn apply<T: Val>(e: &mut Extensions, slot: &mut Option<u32>, op: Op) -> R {
    let want = |s: Option<u32>| s.map(T::of);
    match op {
        Op::Insert(n) => {
            same!("previous value returned by insert", e.insert(T::of(n)), want(*slot));
            *slot = Some(n);
        }
        Op::Get => same!("get", e.get::<T>().cloned(), want(*slot)),
        Op::GetMut(new) => {
            let r = e.get_mut::<T>();
            same!("get_mut", r.as_deref().cloned(), want(*slot));
            if let (Some(r), Some(n)) = (r, new) {
                *r = T::of(n);
                *slot = Some(n);
            }
        }
        Op::Remove => {
            same!("removed value", e.remove::<T>(), want(*slot));
            *slot = None;
        }
    }
    Ok(())
}
fn at(t: usize, e: &mut Extensions, m: &mut Model, op: Op) -> R {
    let s = &mut m[t];
    let r = match t {
        0 => apply::<u32>(e, s, op),
        1 => apply::<i32>(e, s, op),
        2 => apply::<u64>(e, s, op),
        3 => apply::<u8>(e, s, op),
        4 => apply::<bool>(e, s, op),
        5 => apply::<String>(e, s, op),
        6 => apply::<&'static str>(e, s, op),
        7 => apply::<Vec<u8>>(e, s, op),
        8 => apply::<Wrap>(e, s, op),
        9 => apply::<Wrap2>(e, s, op),
        10 => apply::<Generic<u8>>(e, s, op),
        11 => apply::<Generic<u16>>(e, s, op),
        12 => apply::<Unit>(e, s, op),
        13 => apply::<[u32; 3]>(e, s, op),
        14 => apply::<Option<u32>>(e, s, op),
        _ => apply::<Box<u32>>(e, s, op),
    };
    r.map_err(|m| format!("type {}: {}", t, m))
}
fn matches(e: &mut Extensions, m: &mut Model) -> R {
    let n = m.iter().flatten().count();
    same!("len", e.len(), n);
    same!("is_empty", e.is_empty(), n == 0);
    for t in 0..TYPES {
        at(t, e, m, Op::Get)?;
    }
    Ok(())
}
fn c28_history(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut stores: Vec<(Extensions, Model)> = vec![(Extensions::new(), [None; TYPES]), (Extensions::default(), [None; TYPES])];
    let types = src.range(2, TYPES as u64) as usize;
    let n = src.range(1, 30);
    let mut merged = false;
    let mut replaced = false;
    for _ in 0..n {
        let w = src.below(2);
        let t = src.below(types);
        let op = match src.upto(11) {
            0..=3 => Some(Op::Insert(src.upto(1 << 20) as u32)),
            4 => Some(Op::Get),
            5 => Some(Op::GetMut(None)),
            6 => Some(Op::GetMut(Some(src.upto(1 << 20) as u32))),
            7 | 8 => Some(Op::Remove),
            _ => None,
        };
        match op {
            Some(op) => {
                ctx.input("op", &(w, t, op));
                let (e, m) = &mut stores[w];
                replaced |= m[t].is_some() && !matches!(op, Op::Get);
                at(t, e, m, op)?;
            }
            None => match src.upto(3) {
                0 => {
                    ctx.input("clear", &w);
                    let (e, m) = &mut stores[w];
                    e.clear();
                    *m = [None; TYPES];
                }
                1 => {
                    ctx.input("replace by new", &w);
                    stores[w] = (Extensions::new(), [None; TYPES]);
                }
                _ => {
                    // merge the other store into this one; the other starts anew
                    ctx.input("extend", &w);
                    let (oe, om) = std::mem::replace(&mut stores[1 - w], (Extensions::new(), [None; TYPES]));
                    let (e, m) = &mut stores[w];
                    merged |= om.iter().flatten().count() > 0;
                    e.extend(oe);
                    for (x, y) in m.iter_mut().zip(om) {
                        if y.is_some() {
                            *x = y;
                        }
                    }
                }
            },
        }
        for (e, m) in &mut stores {
            matches(e, m)?;
        }
    }
    ctx.nontrivial(replaced || merged);
    ctx.class_if(merged, "merge");
    ctx.class_if(replaced, "operation on a present type");
    Ok(())
}
/// A value is dropped exactly once, whatever is done with it.
fn c28_drops(src: &mut Src, ctx: &mut Ctx) -> R {
    use std::sync::Arc;
    let token = Arc::new(());
    #[derive(Clone)]
    struct A(Arc<()>);
    #[derive(Clone)]
    struct B(Arc<()>);
    let mut e = Extensions::new();
    let (mut a, mut b) = (false, false);
    let n = src.range(1, 12);
    for _ in 0..n {
        let op = src.upto(7);
        ctx.input("op", &op);
        match op {
            0 => { same!("insert", e.insert(A(token.clone())).is_some(), a); a = true; }
            1 => { same!("insert", e.insert(B(token.clone())).is_some(), b); b = true; }
            2 => { same!("remove", e.remove::<A>().is_some(), a); a = false; }
            3 => { same!("remove", e.remove::<B>().is_some(), b); b = false; }
            4 => { e.clear(); a = false; b = false; }
            5 => {
                let mut o = Extensions::new();
                o.insert(A(token.clone()));
                if src.bool() { o.insert(B(token.clone())); b = true; }
                e.extend(o);
                a = true;
            }
            6 => { e = Extensions::new(); a = false; b = false; }
            _ => {
                same!("get", e.get::<A>().map(|x| Arc::ptr_eq(&x.0, &token)), if a { Some(true) } else { None });
                same!("get", e.get::<B>().map(|x| Arc::ptr_eq(&x.0, &token)), if b { Some(true) } else { None });
            }
        }
        same!("values alive", Arc::strong_count(&token) - 1, a as usize + b as usize);
    }
    drop(e);
    same!("values alive after the store is gone", Arc::strong_count(&token), 1);
    ctx.nontrivial(n > 2);
    Ok(())
}
pub fn c28() -> Prop {
    Prop {
        id: "",
        rule: "a history with a merge of non-empty stores or an operation on a type that is present",
        assumptions: &["sixteen value types, including zero-sized, generic and look-alike ones"],
        subs: vec![
            sub("histories", Kind::Random(30_000), c28_history),
            sub("drops", Kind::Random(20_000), c28_drops),
        ],
    }
}

// ------------------------------------------------------------------ C35
macro_rules! constants {
    ($($k:ident)*) => { &[$((stringify!($k), HeaderName::$k)),*] };
}
pub const NAMES: &[(&str, HeaderName)] = constants! { 
    ACCEPT ACCEPT_CHARSET ACCEPT_ENCODING ACCEPT_LANGUAGE ACCEPT_RANGES
    ACCESS_CONTROL_ALLOW_CREDENTIALS ACCESS_CONTROL_ALLOW_HEADERS ACCESS_CONTROL_ALLOW_METHODS ACCESS_CONTROL_ALLOW_ORIGIN ACCESS_CONTROL_EXPOSE_HEADERS
    ACCESS_CONTROL_MAX_AGE ACCESS_CONTROL_REQUEST_HEADERS ACCESS_CONTROL_REQUEST_METHOD AGE ALLOW
    ALT_SVC AUTHORIZATION CACHE_CONTROL CACHE_STATUS CDN_CACHE_CONTROL
    CONNECTION CONTENT_DISPOSITION CONTENT_ENCODING CONTENT_LANGUAGE CONTENT_LENGTH
    CONTENT_LOCATION CONTENT_RANGE CONTENT_SECURITY_POLICY CONTENT_SECURITY_POLICY_REPORT_ONLY CONTENT_TYPE
    COOKIE DNT DATE ETAG EXPECT
    EXPIRES FORWARDED FROM HOST IF_MATCH
    IF_MODIFIED_SINCE IF_NONE_MATCH IF_RANGE IF_UNMODIFIED_SINCE LAST_MODIFIED
    LINK LOCATION MAX_FORWARDS ORIGIN PRAGMA
    PROXY_AUTHENTICATE PROXY_AUTHORIZATION PUBLIC_KEY_PINS PUBLIC_KEY_PINS_REPORT_ONLY RANGE
    REFERER REFERRER_POLICY REFRESH RETRY_AFTER SEC_WEBSOCKET_ACCEPT
    SEC_WEBSOCKET_EXTENSIONS SEC_WEBSOCKET_KEY SEC_WEBSOCKET_PROTOCOL SEC_WEBSOCKET_VERSION SERVER
    SET_COOKIE STRICT_TRANSPORT_SECURITY TE TRAILER TRANSFER_ENCODING
    USER_AGENT UPGRADE UPGRADE_INSECURE_REQUESTS VARY VIA
    WARNING WWW_AUTHENTICATE X_CONTENT_TYPE_OPTIONS X_DNS_PREFETCH_CONTROL X_FRAME_OPTIONS
    X_XSS_PROTECTION
 };

fn c35_constant(src: &mut Src, ctx: &mut Ctx) -> R {
    let (ident, name) = &NAMES[src.index as usize];
    ctx.input("constant", ident);
    ctx.nontrivial(true);
    // :authority and the like do not occur; every name is its identifier
    let text = ident.to_ascii_lowercase().replace('_', "-");
    same!("text of the constant", name.name(), text.as_str());
    same!("bytes of the constant", show(name.as_bytes()), text);
    same!("length", name.bytes_len(), text.len());
    for case in 0..3 {
        let t = match case {
            0 => text.clone(),
            1 => text.to_ascii_uppercase(),
            _ => {
                let mut up = true;
                text.chars().map(|c| { let r = if up { c.to_ascii_uppercase() } else { c }; up = c == '-'; r }).collect()
            }
        };
        let made = HeaderName::from_bytes(t.as_bytes());
        let made = made.ok_or(format!("{:?} is not a header name", t))?;
        ensure!(made == *name && *name == made, "{:?} is not {}", t, ident);
        ensure!(made.name().eq_ignore_ascii_case(&t), "{:?} becomes {:?}", t, made.name());
    }
    for (other, o) in NAMES {
        same!(format!("{} == {}", ident, other), name == o, ident == other);
    }
    Ok(())
}
fn c35_name(src: &mut Src, ctx: &mut Ctx) -> R {
    let base = src.pick(NAMES).0.to_ascii_lowercase().replace('_', "-");
    let t = match src.upto(5) {
        0 => base,
        1 => recase(src, &base),
        2 => {
            let mut b = base.into_bytes();
            super::gen::mutate(src, &mut b);
            match String::from_utf8(b) {
                Ok(s) => s,
                Err(_) => return Ok(()),
            }
        }
        3 => {
            let max = if src.chance(1, 20) { 300 } else { 40 };
            let n = 1 + src.size(max);
            (0..n).map(|_| *src.pick(TCHAR) as char).collect()
        }
        4 => format!(":{}", base),
        _ => text(src, 40),
    };
    if t.is_empty() {
        return Ok(());
    }
    ctx.input("name", &t);
    let known = NAMES.iter().filter(|(i, _)| i.to_ascii_lowercase().replace('_', "-").eq_ignore_ascii_case(&t)).count();
    ctx.class(match known { 0 => "other name", _ => "standard name" });
    ctx.nontrivial(known > 0 || t.bytes().any(|b| b.is_ascii_uppercase()));
    let made: Vec<(&str, HeaderName)> = vec![
        ("from_bytes", HeaderName::from_bytes(t.as_bytes()).ok_or("refused")?),
        ("try_from String", HeaderName::try_from(t.clone()).map_err(|e| format!("{:?}", e))?),
        ("try_from str", HeaderName::try_from(leak(&t)).map_err(|e| format!("{:?}", e))?),
        ("from_static", HeaderName::from_static(leak(&t))),
    ];
    let (other, longer) = (recase(src, &t), format!("{}{}", t, src.pick(&["-", "s", "\0"])));
    for (how, n) in &made {
        same!(format!("{}: text", how), n.name().to_ascii_lowercase(), t.to_ascii_lowercase());
        if known == 0 {
            same!(format!("{}: exact text", how), n.name(), t.as_str());
        }
        same!(format!("{}: bytes", how), n.as_bytes(), n.name().as_bytes());
        same!(format!("{}: length", how), n.bytes_len(), n.name().len());
        same!(format!("{}: pseudo-header", how), n.is_spec(), t.starts_with(':'));
        same!(format!("{}: Display", how), n.to_string(), n.name());
        same!(format!("{}: AsRef", how), AsRef::<[u8]>::as_ref(n), n.as_bytes());
        let (size, out) = enc("name", |b| n.encode(b))?;
        same!(format!("{}: encoded", how), (size, show(&out)), (Some(t.len()), show(n.as_bytes())));
        ensure!(*n == &other[..] && *n == other.as_bytes() && other.as_bytes() == *n, "{}: {:?} is not {:?}", how, t, other);
        ensure!(made.iter().all(|(_, m)| m == n), "{}: {:?} is not equal to itself made otherwise", how, t);
        ensure!(*n != &longer[..] && *n != longer.as_bytes(), "{}: {:?} is {:?}", how, t, longer);
        for (ident, k) in NAMES {
            let want = ident.to_ascii_lowercase().replace('_', "-").eq_ignore_ascii_case(&t);
            ensure!((n == k) == want, "{}: {:?} == {} is {}", how, t, ident, !want);
        }
    }
    Ok(())
}
pub fn c35() -> Prop {
    Prop {
        id: "",
        rule: "a standard header name (in any letter case) or a name with an upper-case letter",
        assumptions: &["names are valid UTF-8 and not empty", "the standard names are the IANA names, spelled like their identifiers with hyphens"],
        subs: vec![
            sub("constants", Kind::Every(NAMES.len() as u64), c35_constant),
            sub("names", Kind::Random(15_000), c35_name),
        ],
    }
}
