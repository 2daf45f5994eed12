//! C11 C12 C13: URLs and percent-encoding.
use super::gen::*;
use crate::engine::*;
use crate::{ensure, same};
use webparse::{Scheme, Url};

pub fn scheme(src: &mut Src) -> Scheme {
    match src.upto(7) {
        0 | 1 => Scheme::Http,
        2 => Scheme::Https,
        3 => Scheme::Ws,
        4 => Scheme::Wss,
        5 => Scheme::Ftp,
        _ => {
            let n = if src.chance(1, 4) { 60 + src.upto(3) as usize } else { src.size(20) };
            let mut s = String::from("x");
            for _ in 0..n {
                s.push(*src.pick(b"abz019+-.AZ") as char);
            }
            Scheme::Extension(s)
        }
    }
}
fn scheme_text(s: &Scheme) -> String {
    match s {
        Scheme::Http => "http".into(),
        Scheme::Https => "https".into(),
        Scheme::Ws => "ws".into(),
        Scheme::Wss => "wss".into(),
        Scheme::Ftp => "ftp".into(),
        Scheme::Extension(s) => s.clone(),
        Scheme::None => String::new(),
    }
}
fn default_port(s: &Scheme) -> u16 {
    match s {
        Scheme::Http | Scheme::Ws => 80,
        Scheme::Https | Scheme::Wss => 443,
        Scheme::Ftp => 21,
        _ => 0,
    }
}

// ------------------------------------------------------------------ C11
fn print_parse(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut u = Url::new();
    u.scheme = scheme(src);
    u.domain = Some(if src.bool() { host(src) } else { text(src, 10) });
    u.port = Some(port(src));
    u.path = format!("/{}", text(src, 16));
    if src.bool() {
        u.username = Some(text(src, 8));
        u.password = Some(text(src, 8));
        ctx.class("credentials");
    }
    if src.bool() {
        u.query = Some(text(src, 16));
        ctx.class("query");
    }
    if src.chance(1, 3) {
        // the same URL through the builder
        let mut b = Url::builder()
            .domain(u.domain.clone().unwrap())
            .port(u.port.unwrap())
            .path(u.path.clone());
        if let Some(n) = &u.username {
            b = b.username(n.clone()).password(u.password.clone().unwrap());
        }
        if let Some(q) = &u.query {
            b = b.query(q.clone());
        }
        let st = scheme_text(&u.scheme);
        let v = b.scheme(&*st).build().map_err(|e| format!("builder failed: {:?}", e))?;
        same!("URL from the builder", v, u);
    }
    ctx.input("url", &u);
    ctx.nontrivial(u.path.len() > 1 || u.query.is_some() || u.username.is_some());
    let s = u.to_string();
    ctx.input("printed", &s);
    let back: Url = s.parse().map_err(|e| format!("{:?} does not parse: {:?}", s, e))?;
    same!("printed and parsed", back, u);
    let v = Url::try_from(&*s).map_err(|e| format!("{:?}", e))?;
    same!("TryFrom<&str>", v, u);
    let v = Url::try_from(s.clone()).map_err(|e| format!("{:?}", e))?;
    same!("TryFrom<String>", v, u);
    let v = Url::try_from(s.as_bytes()).map_err(|e| format!("{:?}", e))?;
    same!("TryFrom<&[u8]>", v, u);
    ensure!(u == *s.as_str() && *s.as_str() == u, "{:?} is not equal to its own text {:?}", u, s);
    for other in [format!("{}x", s), s[..s.len() - 1].to_string(), s.to_ascii_uppercase(), s.to_ascii_lowercase(), format!(" {}", s), tweak_text(src, &s)] {
        let own = other == s;
        same!(format!("{:?} is the text {:?}", u, other), u == *other.as_str(), own);
        same!(format!("the text {:?} is {:?}", other, u), *other.as_str() == u, own);
    }
    Ok(())
}

/// The text with one character in another letter case, replaced or left out.
fn tweak_text(src: &mut Src, s: &str) -> String {
    let i = src.below(s.len());
    let mut v = s.as_bytes().to_vec();
    match src.upto(2) {
        0 if v[i].is_ascii_alphabetic() => v[i] ^= 0x20,
        1 => {
            v.remove(i);
        }
        _ => v[i] = *src.pick(b"/?:@%a0"),
    }
    String::from_utf8(v).unwrap_or_default()
}

/// One of user name and password alone: the other reads back absent or empty.
fn lone_credential(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut u = Url::new();
    u.scheme = scheme(src);
    u.domain = Some(host(src));
    u.port = Some(port(src));
    u.path = format!("/{}", text(src, 6));
    let t = text(src, 8);
    if src.bool() {
        u.username = Some(t);
        ctx.class("user name only");
    } else {
        u.password = Some(t);
        ctx.class("password only");
    }
    ctx.input("url", &u);
    ctx.nontrivial(true);
    let s = u.to_string();
    let mut back: Url = s.parse().map_err(|e| format!("{:?} does not parse: {:?}", s, e))?;
    if u.username.is_none() && back.username.as_deref() == Some("") {
        back.username = None;
    }
    if u.password.is_none() && back.password.as_deref() == Some("") {
        back.password = None;
    }
    same!("printed and parsed", back, u);
    Ok(())
}

/// A text without escapes, upper case or a default port is printed as it was
/// written; a default port of http and https is left out.
fn canonical(src: &mut Src, ctx: &mut Ctx) -> R {
    let plain = |src: &mut Src, max: usize, more: &[u8]| -> String {
        let set: Vec<u8> = b"abcxyzABCXYZ0189-_".iter().chain(more).copied().collect();
        let n = src.size(max);
        (0..n).map(|_| *src.pick(&set) as char).collect()
    };
    let s = *src.pick(&["http", "https", "ws", "wss", "ftp"]);
    let mut head = format!("{}://", s);
    if src.chance(1, 3) {
        head.push_str(&format!("{}:{}@", plain(src, 6, b""), plain(src, 6, b"")));
    }
    head.push_str(&host(src).replace('~', "-"));
    let default = match s {
        "http" => 80,
        "https" => 443,
        _ => 0,
    };
    let p = port(src).max(1);
    let mut written = String::new();
    let mut printed = String::new();
    if default == 0 {
        printed = format!(":{}", p);
        written = printed.clone();
    } else {
        match src.upto(2) {
            0 => {}
            1 => written = format!(":{}", default),
            _ if p == default => written = format!(":{}", default),
            _ => {
                printed = format!(":{}", p);
                written = printed.clone();
            }
        }
    }
    let mut tail = format!("/{}", plain(src, 12, b"/."));
    if src.bool() {
        tail.push('?');
        tail.push_str(&plain(src, 12, b"=&."));
    }
    let text = format!("{}{}{}", head, written, tail);
    let want = format!("{}{}{}", head, printed, tail);
    ctx.input("text", &text);
    ctx.class(if written == printed { "as written" } else { "default port" });
    ctx.nontrivial(tail.len() > 1);
    let u: Url = text.parse().map_err(|e| format!("{:?} does not parse: {:?}", text, e))?;
    same!("printed", u.to_string(), want);
    ensure!(u == *want.as_str(), "{:?} is not equal to {:?}", u, want);
    Ok(())
}

fn url_text(src: &mut Src) -> String {
    let mut s = String::new();
    if src.upto(3) > 0 {
        s.push_str(&scheme_text(&scheme(src)));
        s.push_str("://");
        if src.chance(1, 3) {
            let (a, b) = (text(src, 6), text(src, 6));
            s.push_str(&pct(src, a.as_bytes(), unreserved));
            s.push(':');
            s.push_str(&pct(src, b.as_bytes(), unreserved));
            s.push('@');
        }
        if src.chance(3, 4) {
            s.push_str(&host(src));
        } else {
            let h = text(src, 6);
            s.push_str(&pct(src, h.as_bytes(), unreserved));
        }
        if src.bool() {
            s.push_str(&format!(":{}", port(src)));
        }
        if src.chance(1, 5) {
            if src.bool() {
                let q = text(src, 6);
                s.push('?');
                s.push_str(&pct(src, q.as_bytes(), query_char));
            }
            return s;
        }
    }
    let p = text(src, 12);
    s.push('/');
    s.push_str(&pct(src, p.as_bytes(), |b| b > 0x20 && b < 0x7f && b != b'%' && b != b'?'));
    if src.bool() {
        let q = text(src, 12);
        s.push('?');
        s.push_str(&pct(src, q.as_bytes(), |b| b > 0x20 && b < 0x7f && b != b'%'));
    }
    s
}

/// The text parsed by one of the entry points, all of which must agree.
fn parse_url(src: &mut Src, ctx: &mut Ctx, v: &[u8]) -> Result<Url, webparse::WebError> {
    let way = src.below(5);
    ctx.class(["parsed from a vector", "parsed from a slice", "parsed from a string", "parsed from a str", "parsed by parse()"][way]);
    match (way, std::str::from_utf8(v)) {
        (1, _) => Url::try_from(v),
        (2, Ok(t)) => Url::try_from(t.to_string()),
        (3, Ok(t)) => Url::try_from(t),
        (4, Ok(t)) => t.parse(),
        _ => Url::parse(v.to_vec()),
    }
}

/// Any text, well formed or not.
fn any_text(src: &mut Src) -> Vec<u8> {
    let mut v = url_text(src).into_bytes();
    if src.chance(1, 3) {
        let n = src.range(1, 3);
        for _ in 0..n {
            let i = src.below(v.len() + 1);
            let b = *src.pick(b":/?@%#[]&=.0a2F");
            if src.bool() || i == v.len() {
                v.insert(i, b);
            } else {
                v[i] = b;
            }
        }
    }
    v
}

fn parse_print(src: &mut Src, ctx: &mut Ctx) -> R {
    let v = any_text(src);
    ctx.bytes("text", &v);
    let u = match parse_url(src, ctx, &v) {
        Ok(u) => u,
        Err(_) => {
            ctx.class("refused");
            return Ok(());
        }
    };
    ctx.class("accepted");
    ctx.nontrivial(true);
    let s = u.to_string();
    ctx.input("printed", &s);
    let w: Url = s.parse().map_err(|e| format!("{:?} (printed from {:?}) does not parse: {:?}", s, u, e))?;
    same!("parsed, printed, parsed", w, u);
    same!("printed twice", w.to_string(), s);
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "URLs with every component drawn from arbitrary Unicode text (reserved characters over-represented), any port and scheme, printed and parsed through 4 routes; URLs with only one of user name and password; URL texts that need no escape, which must be printed as written (less a default port of http and https); and URL texts (escaped, unescaped, damaged) that parse, printed and parsed again; a share of the texts is up to 512 KiB long. Non-trivial: the URL has more than scheme and host / the text parses.",
        assumptions: &["a user name without a password (or the reverse) may read back with the other one empty", "scheme extensions are written in RFC 3986 scheme characters, at most 64"],
        subs: vec![
            sub("print_parse", Kind::Random(60_000), print_parse),
            sub("lone_credential", Kind::Random(8_000), lone_credential),
            sub("canonical", Kind::Random(20_000), canonical),
            sub("large", Kind::Random(100), |s, c| {
                s.arm(19);
                parse_print(s, c)
            }),
            sub("parse_print", Kind::Random(80_000), parse_print),
        ],
    }
}

// ------------------------------------------------------------------ C12
fn reg_char(b: u8) -> bool {
    unreserved(b) || b"!$&'()*+,;=".contains(&b)
}

struct Parts {
    scheme: Scheme,
    user: Option<(String, String)>,
    host: String,
    port: Option<u16>,
    path: Option<String>,
    query: Option<String>,
}

fn parts(src: &mut Src) -> Parts {
    Parts {
        scheme: scheme(src),
        user: if src.chance(1, 3) { Some((text(src, 6), text(src, 6))) } else { None },
        host: if src.chance(3, 4) { host(src) } else { format!("h{}", text(src, 6)) },
        port: if src.bool() { Some(port(src)) } else { None },
        path: if src.chance(3, 4) { Some(text(src, 12)) } else { None },
        query: if src.bool() { Some(text(src, 12)) } else { None },
    }
}

fn render(src: &mut Src, p: &Parts) -> String {
    let mut s = format!("{}://", scheme_text(&p.scheme));
    if let Some((a, b)) = &p.user {
        s.push_str(&format!("{}:{}@", pct(src, a.as_bytes(), reg_char), pct(src, b.as_bytes(), reg_char)));
    }
    s.push_str(&pct(src, p.host.as_bytes(), reg_char));
    if let Some(x) = p.port {
        let z = if src.chance(1, 6) { "0".repeat(src.range(1, 3) as usize) } else { String::new() };
        s.push_str(&format!(":{}{}", z, x));
    }
    if let Some(x) = &p.path {
        s.push('/');
        s.push_str(&pct(src, x.as_bytes(), path_char));
    }
    if let Some(q) = &p.query {
        s.push('?');
        s.push_str(&pct(src, q.as_bytes(), query_char));
    }
    s
}

fn decompose(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = parts(src);
    let s = render(src, &p);
    ctx.input("text", &s);
    ctx.class_if(p.user.is_some(), "credentials");
    ctx.class_if(p.path.is_none() && p.query.is_some(), "query without path");
    ctx.class_if(p.path.is_none() && p.query.is_none(), "authority only");
    ctx.class_if(
        p.path.iter().chain(p.query.iter()).any(|x| x.contains('@') || x.contains(':')),
        "'@' or ':' after the authority",
    );
    ctx.nontrivial(true);
    let u = parse_url(src, ctx, s.as_bytes()).map_err(|e| format!("{:?} refused: {:?}", s, e))?;
    same!("scheme", u.scheme, p.scheme);
    same!("user name", u.username, p.user.as_ref().map(|x| x.0.clone()));
    same!("password", u.password, p.user.as_ref().map(|x| x.1.clone()));
    same!("host", u.domain, Some(p.host.clone()));
    let wp = p.port.unwrap_or(default_port(&p.scheme));
    same!("port", u.port, Some(wp));
    same!("path", u.path, format!("/{}", p.path.clone().unwrap_or_default()));
    same!("query", u.query, p.query);
    same!("connection address", u.get_connect_url(), Some(format!("{}:{}", p.host, wp)));
    let auth = u.get_authority();
    let hide = matches!((&p.scheme, wp), (Scheme::Http, 80) | (Scheme::Https, 443));
    if hide {
        ensure!(auth == p.host || auth == format!("{}:{}", p.host, wp), "authority {:?}", auth);
    } else {
        same!("authority", auth, format!("{}:{}", p.host, wp));
    }
    same!("get_scheme", u.get_scheme(), scheme_text(&p.scheme));
    Ok(())
}

fn origin_form(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = text(src, 16);
    let q = if src.bool() { Some(text(src, 16)) } else { None };
    let mut s = format!("/{}", pct(src, p.as_bytes(), path_char));
    if let Some(q) = &q {
        s.push('?');
        s.push_str(&pct(src, q.as_bytes(), query_char));
    }
    ctx.input("text", &s);
    ctx.nontrivial(s.len() > 1);
    let u = parse_url(src, ctx, s.as_bytes()).map_err(|e| format!("{:?} refused: {:?}", s, e))?;
    same!("path", u.path, format!("/{}", p));
    same!("query", u.query, q);
    same!("scheme", u.scheme, Scheme::None);
    same!("host", u.domain, None);
    same!("user", u.username, None);
    same!("password", u.password, None);
    same!("connection address", u.get_connect_url(), None);
    same!("authority", u.get_authority(), "");
    Ok(())
}

fn invalid(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut p = parts(src);
    let origin = src.chance(1, 3);
    let what: &'static str;
    let s: Vec<u8> = match src.upto(4) {
        4 => {
            what = "several '@' in the authority";
            let mut s = format!("{}://", scheme_text(&p.scheme));
            for _ in 0..src.range(2, 4) {
                let (u, w) = (text(src, 6), text(src, 6));
                s.push_str(&pct(src, u.as_bytes(), reg_char));
                if src.chance(4, 5) {
                    s.push(':');
                    s.push_str(&pct(src, w.as_bytes(), reg_char));
                }
                s.push('@');
            }
            s.push_str(&pct(src, p.host.as_bytes(), reg_char));
            if let Some(x) = &p.path {
                s.push('/');
                s.push_str(&pct(src, x.as_bytes(), path_char));
            }
            s.into_bytes()
        }
        0 => {
            what = "bad port";
            p.port = None;
            let bad = match src.upto(3) {
                0 => (65536 + src.scaled(40)).to_string(),
                1 => src.pick(&["-1", "+80", "8o", "0x50", "80.", "1e3", "80;", "a", "99999999999999999999", "--", "8%20"]).to_string(),
                2 => {
                    let mut x = port(src).to_string();
                    let i = src.below(x.len() + 1);
                    x.insert(i, *src.pick(&['a', '-', '.', '_', '=', '&', '+', '*']));
                    x
                }
                _ => format!("{}:{}", port(src), port(src)),
            };
            let mut s = format!("{}://{}:{}", scheme_text(&p.scheme), pct(src, p.host.as_bytes(), reg_char), bad);
            if let Some(x) = &p.path {
                s.push('/');
                s.push_str(&pct(src, x.as_bytes(), path_char));
            }
            s.into_bytes()
        }
        1 => {
            what = "broken percent escape";
            let bad = match src.upto(2) {
                0 => src.pick(&["%zz", "%g0", "%0g", "%%41", "%-1", "%+1", "%4 "]).trim().to_string(),
                1 => format!("%{}", src.pick(b"ghzGZ-+.~/") .to_owned() as char),
                _ => format!("%{:x}{}", src.upto(15), src.pick(b"ghzGZ-+.~") .to_owned() as char),
            };
            // "%4" followed by more hex would be whole: put a separator after it
            let bad = format!("{}-", bad);
            let at_end = src.chance(1, 4);
            let truncated = *src.pick(&["%", "%4", "%a"]);
            let s = if origin {
                let t = text(src, 6);
                format!("/{}", pct(src, t.as_bytes(), path_char))
            } else {
                p.path = Some(p.path.unwrap_or_default());
                render(src, &p)
            };
            if at_end {
                format!("{}{}", s, truncated).into_bytes()
            } else if src.bool() || origin {
                format!("{}{}", s, bad).into_bytes()
            } else {
                // inside the authority
                let i = s.find("://").unwrap() + 3;
                format!("{}{}{}", &s[..i], bad.replace('/', "z"), &s[i..]).into_bytes()
            }
        }
        2 => {
            what = "byte outside printable ASCII";
            let mut s = if origin {
                let t = text(src, 6);
                format!("/{}", pct(src, t.as_bytes(), path_char))
            } else {
                render(src, &p)
            }
            .into_bytes();
            let b = match src.upto(2) {
                0 => src.upto(0x20) as u8,
                1 => 0x7f,
                _ => 0x80 + src.upto(0x7f) as u8,
            };
            let i = src.below(s.len() + 1);
            s.insert(i, b);
            s
        }
        _ => {
            what = "no scheme separator";
            let sch = scheme_text(&p.scheme);
            let tail = *src.pick(&["", ":", ":/", ":/h", "/h", ":h", "//h/", ":/ /", "::", ":///"]);
            let tail = if tail == ":///" { ":/x//" } else { tail };
            format!("{}{}", sch, tail).into_bytes()
        }
    };
    ctx.input("fault", &what);
    ctx.bytes("text", &s);
    ctx.class(what);
    ctx.nontrivial(true);
    match parse_url(src, ctx, &s) {
        Ok(u) => Err(format!("{}: accepted as {:?}", what, u)),
        Err(e) if e.is_partial() => Err(format!("{}: reported as an incomplete HTTP head, not as an invalid URL", what)),
        Err(_) => Ok(()),
    }
}

/// Every entry point reads a text alike.
fn entry_points(src: &mut Src, ctx: &mut Ctx) -> R {
    let v = any_text(src);
    ctx.bytes("text", &v);
    let want = Url::parse(v.clone()).ok();
    ctx.class(if want.is_some() { "accepted" } else { "refused" });
    ctx.nontrivial(v.len() > 1);
    same!("TryFrom<&[u8]>", Url::try_from(&v[..]).ok(), want);
    if let Ok(t) = std::str::from_utf8(&v) {
        same!("TryFrom<&str>", Url::try_from(t).ok(), want);
        same!("TryFrom<String>", Url::try_from(t.to_string()).ok(), want);
        same!("FromStr", t.parse::<Url>().ok(), want);
    }
    Ok(())
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "URLs assembled from independently chosen components (arbitrary Unicode, escaped in either hex case, sub-delimiters left raw, '@' ':' '?' '/' raw in path and query where RFC 3986 allows), with and without credentials, port, path and query; origin-form targets; texts with one fault (port, percent escape, byte, scheme separator); and texts, well formed or not, read through every entry point (Url::parse, FromStr, the three TryFrom). All cases count as non-trivial.",
        assumptions: &["fragment-free, scheme in lower case and of at most 64 characters, no IPv6 literal, no raw ':' inside a password, no empty port"],
        subs: vec![
            sub("decompose", Kind::Random(80_000), decompose),
            sub("origin_form", Kind::Random(30_000), origin_form),
            sub("invalid", Kind::Random(80_000), invalid),
            sub("entry_points", Kind::Random(30_000), entry_points),
            sub("summaries", Kind::Random(8_000), super::builders::summaries),
        ],
    }
}

// ------------------------------------------------------------------ C13
fn encode_decode(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = text(src, 40);
    ctx.input("text", &s);
    ctx.nontrivial(!s.bytes().all(|b| b.is_ascii_alphanumeric()));
    let e = Url::url_encode(&s);
    let b = e.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            ensure!(
                i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit(),
                "encoded form {:?} has a malformed escape",
                e
            );
            i += 3;
        } else {
            ensure!(
                b[i].is_ascii_alphanumeric() || b"&=@:?/-._~".contains(&b[i]),
                "encoded form {:?} contains {:?}",
                e,
                b[i] as char
            );
            i += 1;
        }
    }
    let d = Url::url_decode(&e).map_err(|x| format!("{:?} does not decode: {:?}", e, x))?;
    same!("encoded and decoded", d, s);
    // no character's encoding depends on where it stands
    let mut own = std::collections::HashMap::new();
    let mut pieces = String::with_capacity(e.len());
    for ch in s.chars() {
        let of = own.entry(ch).or_insert_with(|| Url::url_encode(ch.encode_utf8(&mut [0; 4])));
        pieces.push_str(of);
    }
    same!("encoding, against the encodings of the characters one after the other", e, pieces);
    // a different but equivalent encoding decodes to the same text
    let alt = pct(src, s.as_bytes(), unreserved);
    let d = Url::url_decode(&alt).map_err(|x| format!("{:?} does not decode: {:?}", alt, x))?;
    same!("alternative encoding decoded", d, s);
    Ok(())
}

fn decode_model(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(40);
    let s: String = (0..n)
        .map(|_| match src.upto(5) {
            0 => '%'.to_string(),
            1 => src.pick(b"0123456789abcdefABCDEFgGzZ").to_owned().to_string().parse::<u8>().map(|b| (b as char).to_string()).unwrap_or_default(),
            2 => format!("%{:02x}", src.upto(0x7f)),
            3 => format!("%{:02X}", src.upto(0xff)),
            4 => (*src.pick(&['a', '+', ' ', 'é', '/', '-', '\u{1f600}'])).to_string(),
            _ => {
                let c = *src.pick(&['é', '日', '\u{10ffff}', '\u{80}']);
                let mut b = [0u8; 4];
                c.encode_utf8(&mut b).bytes().map(|x| format!("%{:02x}", x)).collect()
            }
        })
        .collect();
    ctx.input("text", &s);
    ctx.nontrivial(s.contains('%'));
    let b = s.as_bytes();
    let mut want: Option<Vec<u8>> = Some(Vec::new());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = |k: usize| b.get(k).and_then(|c| (*c as char).to_digit(16));
            match (h(i + 1), h(i + 2)) {
                (Some(x), Some(y)) => {
                    want.as_mut().unwrap().push((x * 16 + y) as u8);
                    i += 3;
                }
                _ => {
                    want = None;
                    break;
                }
            }
        } else {
            want.as_mut().unwrap().push(b[i]);
            i += 1;
        }
    }
    let got = Url::url_decode(&s);
    match want {
        None => {
            ctx.class("broken escape");
            ensure!(got.is_err(), "broken escape accepted as {:?}", got);
        }
        Some(v) => {
            ctx.class("whole escapes");
            let got = got.map_err(|e| format!("refused: {:?}", e))?;
            if let Ok(t) = String::from_utf8(v) {
                same!("decoded", got, t);
            }
        }
    }
    Ok(())
}

fn single_bytes(src: &mut Src, ctx: &mut Ctx) -> R {
    // every two-character sequence after '%', and every ASCII character alone
    let (a, b) = ((src.index / 128) as u8 as char, (src.index % 128) as u8 as char);
    let s = format!("x%{}{}y", a, b);
    ctx.input("text", &s);
    ctx.nontrivial(true);
    let got = Url::url_decode(&s);
    match (a.to_digit(16), b.to_digit(16)) {
        (Some(x), Some(y)) => {
            let v = vec![b'x', (x * 16 + y) as u8, b'y'];
            let got = got.map_err(|e| format!("refused: {:?}", e))?;
            if let Ok(t) = String::from_utf8(v) {
                same!("decoded", got, t);
            }
        }
        _ => ensure!(got.is_err(), "broken escape accepted as {:?}", got),
    }
    if src.index < 128 {
        let c = (src.index as u8 as char).to_string();
        let e = Url::url_encode(&c);
        same!("single character encoded and decoded", Url::url_decode(&e).ok(), Some(c.clone()));
        let t = format!("{}%", c);
        ensure!(Url::url_decode(&t).is_err(), "{:?} accepted", t);
        let t = format!("%{}", c);
        ensure!(Url::url_decode(&t).is_err(), "{:?} accepted", t);
    }
    Ok(())
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "arbitrary Unicode text encoded and decoded (and re-encoded differently, and character by character), strings of '%', hex and non-hex characters decoded against a reference decoder, and all 128x128 pairs after a '%'; a share of the texts is up to 512 KiB long. Non-trivial: the text needs escaping / contains '%'.",
        assumptions: &["no claim on the text produced when the decoded bytes are not UTF-8"],
        subs: vec![
            sub("single_bytes", Kind::Every(128 * 128), single_bytes),
            sub("encode_decode", Kind::Random(80_000), encode_decode),
            sub("large", Kind::Random(100), |s, c| {
                s.arm(19);
                encode_decode(s, c)
            }),
            sub("decode_model", Kind::Random(80_000), decode_model),
        ],
    }
}
