//! C06 C23 C24 C25: WebSocket.
use super::gen::{mutate, text, Metered};
use super::http1::{bounded, linear};
use crate::engine::*;
use crate::{ensure, same};
use algorithm::buf::{Binary, BinaryMut, Bt, BtMut};
use webparse::ws::frame_header::{read_header, write_header, WsFrameFlags};
use webparse::ws::{CloseData, DataFrame, DataFrameable, Masker, Message, Opcode, OwnedMessage, WsFrameHeader};

// ------------------------------------------------------------------ reference
/// RFC 6455 section 5.2, written from the text of the RFC.
#[derive(Debug, Clone, PartialEq)]
pub struct Head {
    pub first: u8,
    pub mask: Option<[u8; 4]>,
    pub len: u64,
}
impl Head {
    fn op(&self) -> u8 {
        self.first & 15
    }
}
pub fn ref_write(h: &Head) -> Vec<u8> {
    let m = if h.mask.is_some() { 0x80 } else { 0 };
    let mut v = vec![h.first];
    if h.len < 126 {
        v.push(m + h.len as u8);
    } else if h.len < 65536 {
        v.push(m + 126);
        v.extend_from_slice(&[(h.len / 256) as u8, (h.len % 256) as u8]);
    } else {
        v.push(m + 127);
        for i in (0..8).rev() {
            v.push((h.len / 256u64.pow(i)) as u8);
        }
    }
    if let Some(k) = h.mask {
        v.extend_from_slice(&k);
    }
    v
}
/// The header and its size, or why it is refused.
pub fn ref_read(b: &[u8]) -> Result<(Head, usize), &'static str> {
    if b.len() < 2 {
        return Err("truncated");
    }
    let n = b[1] & 127;
    let ext = match n {
        126 => 2,
        127 => 8,
        _ => 0,
    };
    if b.len() < 2 + ext {
        return Err("truncated");
    }
    let mut len = n as u64;
    if ext > 0 {
        len = b[2..2 + ext].iter().fold(0u64, |a, x| a.wrapping_mul(256) + *x as u64);
        if len < 126 || (ext == 8 && len < 65536) {
            return Err("length not minimal");
        }
    }
    if b[0] & 8 != 0 {
        if len > 125 {
            return Err("long control frame");
        }
        if b[0] & 0x80 == 0 {
            return Err("control frame without FIN");
        }
    }
    let mut at = 2 + ext;
    let mut mask = None;
    if b[1] & 0x80 != 0 {
        if b.len() < at + 4 {
            return Err("truncated");
        }
        mask = Some([b[at], b[at + 1], b[at + 2], b[at + 3]]);
        at += 4;
    }
    Ok((Head { first: b[0], mask, len }, at))
}
fn xor(key: Option<[u8; 4]>, d: &[u8]) -> Vec<u8> {
    match key {
        None => d.to_vec(),
        Some(k) => d.iter().enumerate().map(|(i, b)| b ^ k[i % 4]).collect(),
    }
}
fn to_lib(h: &Head) -> WsFrameHeader {
    WsFrameHeader { flags: WsFrameFlags::from_bits_truncate(h.first & 0xf0), opcode: h.first & 15, mask: h.mask, len: h.len }
}
fn from_lib(h: &WsFrameHeader) -> Head {
    Head { first: h.flags.bits() | h.opcode, mask: h.mask, len: h.len }
}
pub fn key(src: &mut Src) -> Option<[u8; 4]> {
    match src.upto(4) {
        0 => None,
        1 => Some([1, 2, 3, 4]),
        2 => Some(*src.pick(&[[0; 4], [255; 4], [0, 0, 0, 1], [0x80, 0, 0, 0], [0, 0xff, 0, 0xff]])),
        _ => Some([src.byte(), src.byte(), src.byte(), src.byte()]),
    }
}
/// One of the buffer types a caller may read from.
pub enum Any<'a> {
    Slice(&'a [u8]),
    Bin(Binary),
    Mut(BinaryMut),
}
impl<'a> Any<'a> {
    fn new(which: u64, data: &'a [u8]) -> Any<'a> {
        match which {
            0 => Any::Slice(data),
            1 => Any::Bin(Binary::from(data.to_vec())),
            _ => Any::Mut(BinaryMut::from(data.to_vec())),
        }
    }
    fn rest(&self) -> Vec<u8> {
        match self {
            Any::Slice(s) => s.to_vec(),
            Any::Bin(s) => s.chunk().to_vec(),
            Any::Mut(s) => s.chunk().to_vec(),
        }
    }
    fn header(&mut self) -> Result<WsFrameHeader, String> {
        match self {
            Any::Slice(s) => read_header(s),
            Any::Bin(s) => read_header(s),
            Any::Mut(s) => read_header(s),
        }
        .map_err(|e| format!("{:?}", e))
    }
    fn frame(&mut self, masked: bool, limit: Option<usize>) -> Result<DataFrame, String> {
        match (self, limit) {
            (Any::Slice(s), None) => DataFrame::read_dataframe(s, masked),
            (Any::Bin(s), None) => DataFrame::read_dataframe(s, masked),
            (Any::Mut(s), None) => DataFrame::read_dataframe(s, masked),
            (Any::Slice(s), Some(n)) => DataFrame::read_dataframe_with_limit(s, masked, n),
            (Any::Bin(s), Some(n)) => DataFrame::read_dataframe_with_limit(s, masked, n),
            (Any::Mut(s), Some(n)) => DataFrame::read_dataframe_with_limit(s, masked, n),
        }
        .map_err(|e| format!("{:?}", e))
    }
}
/// Reads from a buffer; gives the result and what is left.
fn read_head(which: u64, data: &[u8]) -> (Result<WsFrameHeader, String>, Vec<u8>) {
    let mut a = Any::new(which, data);
    let r = a.header();
    (r, a.rest())
}
pub fn read_frame(which: u64, data: &[u8], masked: bool, limit: Option<usize>) -> (Result<DataFrame, String>, Vec<u8>) {
    let mut a = Any::new(which, data);
    let r = a.frame(masked, limit);
    (r, a.rest())
}

// ------------------------------------------------------------------ C23
const LENS: &[u64] = &[
    0, 1, 2, 124, 125, 126, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 24, (1 << 32) - 1,
    1 << 32, (1 << 63) - 1,
];
fn check_header(h: &Head, opcode: u8, which: u64) -> R {
    let mut lib = to_lib(h);
    lib.opcode = opcode;
    let mut out: Vec<u8> = vec![7; which as usize];
    let r = write_header(&mut out, lib);
    if opcode > 15 || (opcode >= 8 && h.len > 125) {
        ensure!(r.is_err(), "writing {:?} with opcode {} is not refused", h, opcode);
        return Ok(());
    }
    r.map_err(|e| format!("writing {:?} refused: {:?}", h, e))?;
    let bytes = ref_write(h);
    ensure!(out[which as usize..] == bytes[..], "{:?} written as {}, expected {}", h, show(&out[which as usize..]), show(&bytes));
    let mut long = bytes.clone();
    long.extend_from_slice(&[0x81, 0x7e, 0, 1, 2][..which as usize + 1]);
    let (r, rest) = read_head(which, &long);
    if opcode >= 8 && h.first & 0x80 == 0 {
        ensure!(r.is_err(), "control header without FIN {} read as {:?}", show(&bytes), r);
    } else {
        let got = r.map_err(|e| format!("own header {} refused: {}", show(&bytes), e))?;
        same!("header read back", from_lib(&got), *h);
        same!("octets left", rest, long[bytes.len()..].to_vec());
    }
    for cut in 0..bytes.len() {
        let (r, _) = read_head(which, &bytes[..cut]);
        ensure!(r.is_err(), "the first {} octets of {} read as {:?}", cut, show(&bytes), r);
    }
    Ok(())
}
fn all_headers(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut i = src.index as usize;
    let flags = (i % 16) as u8 * 16;
    i /= 16;
    let opcode = (i % 20) as u8;
    i /= 20;
    let len = LENS[i % LENS.len()];
    i /= LENS.len();
    let mask = [None, Some([0, 0, 0, 0]), Some([0x12, 0xff, 0x80, 0x7f])][i % 3];
    let opcode = if opcode >= 18 { [128, 255][opcode as usize - 18] } else { opcode };
    let h = Head { first: flags | (opcode & 15), mask, len };
    ctx.input("header", &h);
    ctx.input("opcode", &opcode);
    ctx.nontrivial(true);
    check_header(&h, opcode, (src.index / 7) % 3)
}
fn random_headers(src: &mut Src, ctx: &mut Ctx) -> R {
    let opcode = match src.upto(3) {
        0..=2 => src.upto(15) as u8,
        _ => src.byte(),
    };
    let flags = (src.upto(15) * 16) as u8;
    let len = match src.upto(3) {
        0 => *src.pick(LENS),
        _ => src.scaled(63),
    };
    let h = Head { first: flags | (opcode & 15), mask: key(src), len };
    ctx.input("header", &h);
    ctx.input("opcode", &opcode);
    ctx.nontrivial(h.len > 125 || h.mask.is_some() || opcode >= 8);
    check_header(&h, opcode, src.upto(2))
}
fn compare_read(b: &[u8], which: u64, ctx: &mut Ctx) -> R {
    let want = ref_read(b);
    if let Ok((h, _)) = &want {
        if h.len >= 1 << 63 {
            return Ok(()); // the RFC reserves the top bit; either answer will do
        }
    }
    let (got, rest) = read_head(which, b);
    match (got, want) {
        (Ok(g), Ok((w, n))) => {
            ctx.class("accepted");
            same!("header", from_lib(&g), w);
            same!("octets left", rest, b[n..].to_vec());
        }
        (Err(_), Err(why)) => ctx.class(why),
        (Ok(g), Err(why)) => return Err(format!("{} ({}) read as {:?}", show(b), why, g)),
        (Err(e), Ok((w, _))) => return Err(format!("{} = {:?} refused: {}", show(b), w, e)),
    }
    Ok(())
}
/// Every pair of first two octets, with extensions around every boundary.
fn all_starts(src: &mut Src, ctx: &mut Ctx) -> R {
    let i = src.index;
    let b0 = (i / 256) as u8;
    let b1 = (i % 256) as u8;
    ctx.input("start", &(b0, b1));
    ctx.nontrivial(true);
    let tails: &[&[u8]] = match b1 & 127 {
        126 => &[b"", b"\0", b"\0\0", b"\0\x7d", b"\0\x7e", b"\0\x7f", b"\0\xff\xff", b"\x01\0", b"\xff\xff", b"\xff\xff\x01\x02\x03", b"\xff\xff\x01\x02\x03\x04", b"\0\x7e\x01\x02\x03\x04\x05"],
        127 => &[
            b"",
            b"\0\0\0\0\0\x01\0",
            b"\0\0\0\0\0\0\0\x7d",
            b"\0\0\0\0\0\0\0\x7e",
            b"\0\0\0\0\0\0\xff\xff",
            b"\0\0\0\0\0\x01\0\0",
            b"\0\0\0\0\0\x01\0\0\x01\x02\x03",
            b"\0\0\0\0\0\x01\0\0\x01\x02\x03\x04",
            b"\x7f\xff\xff\xff\xff\xff\xff\xff\x01\x02\x03\x04\x05",
        ],
        _ => &[b"", b"\x01", b"\x01\x02\x03", b"\x01\x02\x03\x04", b"\x01\x02\x03\x04\x05\x06"],
    };
    for (k, t) in tails.iter().enumerate() {
        let mut b = vec![b0, b1];
        b.extend_from_slice(t);
        compare_read(&b, (i + k as u64) % 3, ctx)?;
    }
    Ok(())
}
fn random_read(src: &mut Src, ctx: &mut Ctx) -> R {
    let h = Head { first: src.byte(), mask: key(src), len: src.scaled(64) };
    let mut b = match src.upto(2) {
        0 => src.bytes(16),
        _ => ref_write(&h),
    };
    if src.bool() {
        mutate(src, &mut b);
    }
    ctx.bytes("bytes", &b);
    ctx.nontrivial(b.len() > 1);
    let w = src.upto(2);
    compare_read(&b, w, ctx)
}
pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "every combination of 4 flag bits, 20 opcodes (0-17, 128, 255), 21 boundary lengths up to 2^63-1 and 3 masks written, compared with RFC 6455 bytes, read back and truncated at every octet; all 65536 first two octets with extensions around each boundary; random headers, random and mutated bytes, and whole frames compared with a reference reader. Non-trivial: extended length, mask, control opcode, or at least two octets to read.",
        assumptions: &["lengths of 2^63 and more, which RFC 6455 reserves, may be accepted or refused"],
        subs: vec![
            sub("all_headers", Kind::Every(16 * 20 * 21 * 3), all_headers),
            sub("all_starts", Kind::Every(65536), all_starts),
            sub("random_headers", Kind::Random(40_000), random_headers),
            sub("random_read", Kind::Random(60_000), random_read),
            sub("wire_frames", Kind::Random(30_000), wire_frames),
        ],
    }
}

// ------------------------------------------------------------------ C24
const OPCODES: [Opcode; 16] = [
    Opcode::Continuation,
    Opcode::Text,
    Opcode::Binary,
    Opcode::NonControl1,
    Opcode::NonControl2,
    Opcode::NonControl3,
    Opcode::NonControl4,
    Opcode::NonControl5,
    Opcode::Close,
    Opcode::Ping,
    Opcode::Pong,
    Opcode::Control1,
    Opcode::Control2,
    Opcode::Control3,
    Opcode::Control4,
    Opcode::Control5,
];
pub fn payload(src: &mut Src, control: bool) -> Vec<u8> {
    if control {
        return match src.upto(3) {
            0 => {
                let n = *src.pick(&[124usize, 125]);
                src.bulk(n)
            }
            _ => src.payload(125),
        };
    }
    if let Some(n) = src.large(1 << 24) {
        return src.bulk(n);
    }
    match src.upto(11) {
        0 => {
            let n = *src.pick(&[124usize, 125, 126, 127, 128, 255, 256, 257]);
            src.bulk(n)
        }
        1 => {
            let n = *src.pick(&[65534usize, 65535, 65536, 65537, 66000]);
            src.bulk(n)
        }
        2 => src.payload(3000),
        _ => src.payload(300),
    }
}
/// A frame or message in one of its forms, with the header it stands for.
enum Any2 {
    Frame(DataFrame),
    Owned(OwnedMessage),
    Borrowed(OwnedMessage),
}
pub fn message(src: &mut Src, control_fits: bool) -> OwnedMessage {
    match src.upto(5) {
        0 => OwnedMessage::Text(if src.chance(1, 6) { text(src, 400) } else { text(src, 40) }),
        1 => OwnedMessage::Binary(payload(src, false)),
        2 => OwnedMessage::Ping(payload(src, control_fits)),
        3 => OwnedMessage::Pong(payload(src, control_fits)),
        4 => OwnedMessage::Close(None),
        _ => {
            let mut reason = if src.chance(1, 4) { String::new() } else { text(src, 60) };
            while control_fits && reason.len() > 123 {
                reason.pop();
            }
            let code = match src.upto(2) {
                0 => *src.pick(&[1000u16, 1001, 1002, 1011, 0, 1, 255, 256, 65535]),
                1 => src.range(999, 1016) as u16,
                _ if src.bool() => src.literal(65535) as u16,
                _ => src.upto(65535) as u16,
            };
            OwnedMessage::Close(Some(CloseData { status_code: code, reason }))
        }
    }
}
/// Opcode and payload a message has on the wire.
pub fn wire(m: &OwnedMessage) -> (u8, Vec<u8>) {
    match m {
        OwnedMessage::Text(s) => (1, s.as_bytes().to_vec()),
        OwnedMessage::Binary(d) => (2, d.clone()),
        OwnedMessage::Ping(d) => (9, d.clone()),
        OwnedMessage::Pong(d) => (10, d.clone()),
        OwnedMessage::Close(None) => (8, Vec::new()),
        OwnedMessage::Close(Some(c)) => {
            let mut v = vec![(c.status_code >> 8) as u8, c.status_code as u8];
            v.extend_from_slice(c.reason.as_bytes());
            (8, v)
        }
    }
}
pub fn borrowed(m: &OwnedMessage) -> Message<'_> {
    match m {
        OwnedMessage::Text(s) => Message::text(&s[..]),
        OwnedMessage::Binary(d) => Message::binary(&d[..]),
        OwnedMessage::Ping(d) => Message::ping(&d[..]),
        OwnedMessage::Pong(d) => Message::pong(&d[..]),
        OwnedMessage::Close(None) => Message::close(),
        OwnedMessage::Close(Some(c)) => Message::close_because(c.status_code, &c.reason[..]),
    }
}
fn write_any(d: &impl DataFrameable, k: Option<[u8; 4]>, out: &mut Vec<u8>) -> Result<usize, String> {
    let before = out.len();
    let kept = out.clone();
    d.write_to(out, k).map_err(|e| format!("write_to: {:?}", e))?;
    ensure!(out.starts_with(&kept), "earlier octets of the buffer changed");
    same!("frame_size", d.frame_size(k.is_some()), out.len() - before);
    Ok(out.len() - before)
}
struct Item {
    first: u8,
    data: Vec<u8>,
    mask: Option<[u8; 4]>,
}
fn frames(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.range(1, 4);
    let mut out: Vec<u8> = src.bytes(4);
    let start = out.len();
    let mut items = Vec::new();
    let mut want = out.clone();
    for _ in 0..n {
        let k = key(src);
        let (what, first, data) = match src.upto(3) {
            0 | 1 => {
                let op = src.upto(15) as u8;
                let data = payload(src, op >= 8);
                let mut f = DataFrame::new(op >= 8 || src.bool(), OPCODES[op as usize], data.clone());
                f.reserved = [src.chance(1, 4), src.chance(1, 4), src.chance(1, 4)];
                let bit = |b: bool, v: u8| if b { v } else { 0 };
                let first = bit(f.finished, 0x80) | bit(f.reserved[0], 0x40) | bit(f.reserved[1], 0x20) | bit(f.reserved[2], 0x10) | op;
                (Any2::Frame(f), first, data)
            }
            w => {
                let m = message(src, true);
                let (op, data) = wire(&m);
                (if w == 2 { Any2::Owned(m) } else { Any2::Borrowed(m) }, 0x80 | op, data)
            }
        };
        ctx.input("first octet", &first);
        ctx.input("key", &k);
        ctx.bytes("payload", &data);
        ctx.nontrivial(!data.is_empty());
        ctx.class_if(data.len() > 125 && data.len() < 65536, "16-bit length");
        ctx.class_if(data.len() >= 65536, "64-bit length");
        ctx.class_if(k.is_some() && data.len() % 4 != 0, "masked, length not a multiple of 4");
        match &what {
            Any2::Frame(f) => {
                same!("size", f.size(), data.len());
                write_any(f, k, &mut out)?;
                same!("take_payload", f.clone().take_payload(), data);
            }
            Any2::Owned(m) => {
                same!("size", m.size(), data.len());
                same!("message_size", m.message_size(k.is_some()), m.frame_size(k.is_some()));
                write_any(m, k, &mut out)?;
                same!("take_payload", m.clone().take_payload(), data);
            }
            Any2::Borrowed(m) => {
                let b = borrowed(m);
                same!("size", b.size(), data.len());
                write_any(&b, k, &mut out)?;
                same!("take_payload", b.take_payload(), data);
            }
        }
        want.extend_from_slice(&ref_write(&Head { first, mask: k, len: data.len() as u64 }));
        want.extend_from_slice(&xor(k, &data));
        ensure!(out == want, "written {}, expected {}", show(&out[start..]), show(&want[start..]));
        items.push(Item { first, data, mask: k });
    }
    // one reader takes the frames off one after another
    let tail = src.bytes(6);
    let bytes = [&want[start..], &tail[..]].concat();
    let mut a = Any::new(src.upto(2), &bytes);
    let mut at = 0;
    for it in &items {
        let size = ref_write(&Head { first: it.first, mask: it.mask, len: it.data.len() as u64 }).len() + it.data.len();
        let limit = match src.upto(3) {
            0 => None,
            1 => Some(it.data.len()),
            2 => Some(it.data.len() + 1),
            _ => Some(above(src, it.data.len())),
        };
        let f = a.frame(it.mask.is_some(), limit).map_err(|e| format!("own frame refused (limit {:?}): {}", limit, e))?;
        same!("frame", (f.finished, f.reserved, f.opcode as u8), (
            it.first & 0x80 != 0,
            [it.first & 0x40 != 0, it.first & 0x20 != 0, it.first & 0x10 != 0],
            it.first & 15
        ));
        ensure!(f.data == it.data, "payload {} read as {}", show(&it.data), show(&f.data));
        same!("is_last", f.is_last(), it.first & 0x80 != 0);
        at += size;
        ensure!(a.rest() == bytes[at..], "after the frame {} octets are left, expected {}", a.rest().len(), bytes.len() - at);
        // truncated, or too long for the limit
        let frame = &bytes[at - size..at];
        let cut = src.upto(size as u64 - 1) as usize;
        let w = src.upto(2);
        let (r, _) = read_frame(w, &frame[..cut], it.mask.is_some(), limit);
        ensure!(r.is_err(), "the first {} of {} octets of a frame were accepted", cut, size);
        let (r, _) = read_frame(w, &frame[..size - 1], it.mask.is_some(), limit);
        ensure!(r.is_err(), "a frame without its last octet was accepted");
        if !it.data.is_empty() {
            let l = it.data.len() - 1 - src.upto(it.data.len() as u64 - 1).min(3) as usize;
            let (r, _) = read_frame(w, frame, it.mask.is_some(), Some(l));
            ensure!(r.is_err(), "a frame with {} octets was accepted with limit {}", it.data.len(), l);
        }
    }
    Ok(())
}
/// A limit of at least `n`: also one whose low half is small.
fn above(src: &mut Src, n: usize) -> usize {
    match src.upto(3) {
        0 => usize::MAX,
        1 => (src.scaled(63) as usize).max(n),
        2 => (1usize << src.range(24, 63)) + src.upto(2) as usize,
        _ => (src.scaled(31) as usize) << 32 | 1 << 63,
    }
}
/// Any octets read as a frame: accepted exactly when the RFC's grammar, the
/// length of the input and the limit allow, with what the grammar says.
fn wire_frames(src: &mut Src, ctx: &mut Ctx) -> R {
    let first = match src.upto(3) {
        0 => *src.pick(&[0x81u8, 0x82, 0x88, 0x89, 0x8a, 0x80, 0x01]),
        1 => 0x80 | src.upto(15) as u8,
        _ => src.byte(),
    };
    let edge = src.chance(1, 60);
    let data = match src.upto(3) {
        _ if edge => {
            // around the longest payload of each length form
            let n = *src.pick(&[125usize, 126, 65534, 65535, 65536]);
            src.bulk(n)
        }
        0 => {
            let n = *src.pick(&[125usize, 126, 127, 0, 1, 2, 200]);
            src.bulk(n)
        }
        _ => src.payload(300),
    };
    let mask = key(src);
    let len = if src.chance(1, 6) { src.scaled(63) } else { data.len() as u64 };
    let mut b = ref_write(&Head { first, mask, len });
    // a longer form of the length than needed
    if src.chance(1, if edge { 2 } else { 8 }) {
        let m = b[1] & 0x80;
        b = vec![first];
        if src.bool() && len <= 0xffff {
            b.push(m | 126);
            b.extend((len as u16).to_be_bytes());
        } else {
            b.push(m | 127);
            b.extend(len.to_be_bytes());
        }
        b.extend(mask.iter().flatten());
    }
    b.extend(xor(mask, &data));
    if src.chance(1, 4) {
        mutate(src, &mut b);
    }
    let limit = match src.upto(3) {
        0 | 1 => None,
        2 if !edge => Some(src.size(300)),
        _ => Some(above(src, len.min(1 << 20) as usize)),
    };
    ctx.bytes("bytes", &b);
    ctx.input("limit", &limit);
    ctx.nontrivial(b.len() > 2);
    let want = ref_read(&b).and_then(|(h, n)| {
        if limit.is_some_and(|l| h.len > l as u64) {
            return Err("above the limit");
        }
        if h.len > (b.len() - n) as u64 {
            return Err("payload truncated");
        }
        let end = n + h.len as usize;
        Ok((h.first, xor(h.mask, &b[n..end]), b[end..].to_vec()))
    });
    let (got, rest) = read_frame(src.upto(2), &b, src.bool(), limit);
    match (got, want) {
        (Ok(f), Ok((first, data, left))) => {
            ctx.class("accepted");
            let bit = |b: bool, v: u8| if b { v } else { 0 };
            let r = f.reserved;
            same!("first octet", bit(f.finished, 0x80) | bit(r[0], 0x40) | bit(r[1], 0x20) | bit(r[2], 0x10) | f.opcode as u8, first);
            same!("payload", f.data, data);
            same!("octets left", rest, left);
        }
        (Err(_), Err(why)) => ctx.class(why),
        (Ok(f), Err(why)) => return Err(format!("{} ({}) read as {:?}", show(&b), why, f)),
        (Err(e), Ok(w)) => return Err(format!("{} = {:?} refused: {}", show(&b), w, e)),
    }
    Ok(())
}
/// A header that announces far more than there is.
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let len = src.scaled(62).max(1);
    let have = src.upto((len - 1).min(40)) as usize;
    let k = key(src);
    let first = *src.pick(&[0x82u8, 0x81, 0x02, 0x00, 0x8a]);
    if first & 8 != 0 && len > 125 {
        return Ok(());
    }
    let mut b = ref_write(&Head { first, mask: k, len });
    b.extend(src.bulk(have));
    ctx.bytes("bytes", &b);
    ctx.nontrivial(true);
    let w = src.upto(2);
    let limit = match src.upto(2) {
        0 => None,
        1 => Some(src.scaled(40) as usize),
        _ => Some(usize::MAX),
    };
    let (r, _) = bounded(b.len(), "reading", || read_frame(w, &b, k.is_some(), limit))?;
    ensure!(r.is_err(), "{} of {} octets are there, read as {:?}", have, len, r);
    Ok(())
}
/// A masker fed in pieces masks the stream as a whole.
fn masker(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = [src.byte(), src.byte(), src.byte(), src.byte()];
    let mut out: Vec<u8> = src.bytes(3);
    let prefix = out.clone();
    let mut plain: Vec<u8> = Vec::new();
    let mut n = 0;
    {
        let mut m = Masker::new(k, &mut out);
        while src.more(n, 12, 4) {
            n += 1;
            match src.upto(4) {
                0 => {
                    let b = src.byte();
                    m.put_u8(b);
                    plain.push(b);
                }
                1 => {
                    let v = src.upto(65535) as u16;
                    m.put_u16(v);
                    plain.extend_from_slice(&v.to_be_bytes());
                }
                2 => {
                    let v = src.scaled(32) as u32;
                    m.put_u32(v);
                    plain.extend_from_slice(&v.to_be_bytes());
                }
                _ => {
                    let d = src.payload(200);
                    let c = m.put_slice(&d);
                    same!("put_slice", c, d.len());
                    plain.extend_from_slice(&d);
                }
            }
        }
    }
    ctx.input("key", &k);
    ctx.bytes("plain", &plain);
    ctx.nontrivial(n > 1);
    let mut want = prefix;
    want.extend(xor(Some(k), &plain));
    ensure!(out == want, "masked {}, expected {}", show(&out), show(&want));
    Ok(())
}
/// A header read earlier and a body read by the caller.
fn bodies(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = key(src);
    let plain = src.payload(300);
    let h = Head { first: (src.upto(15) << 4) as u8 | *src.pick(&[0u8, 1, 2, 8, 9, 10, 3, 7, 11, 15]), mask: k, len: plain.len() as u64 };
    ctx.input("header", &h);
    ctx.bytes("plain", &plain);
    ctx.nontrivial(!plain.is_empty());
    let f = DataFrame::read_dataframe_body(to_lib(&h), xor(k, &plain), src.bool()).map_err(|e| format!("{:?}", e))?;
    same!("finished", f.finished, h.first & 0x80 != 0);
    same!("reserved", f.reserved, [h.first & 0x40 != 0, h.first & 0x20 != 0, h.first & 0x10 != 0]);
    same!("opcode", f.opcode as u8, h.op());
    same!("data", f.data, plain);
    Ok(())
}
pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "one to four data frames (16 opcodes, FIN, reserved bits), owned and borrowed messages with payloads of 0 to 66000 octets (concentrated at 125/126 and 65535/65536) and any or no masking key are written behind earlier octets, compared with RFC 6455 bytes, then read one after another from one of three buffer types, with and without limits at the payload size, one above and below it, truncated at random and at the last octet; arbitrary, damaged and non-minimal frames judged by a reference reader; headers announcing up to 2^62 octets that are not there; a masker fed in pieces; a share of the payloads is up to 16 MiB long. Non-trivial: a non-empty payload or more than one piece.",
        assumptions: &[],
        subs: vec![
            sub("frames", Kind::Random(24_000), frames),
            sub("wire_frames", Kind::Random(40_000), wire_frames),
            sub("huge", Kind::Random(20_000), huge),
            sub("large", Kind::Random(150), |s, c| {
                s.arm(23);
                frames(s, c)
            }),
            sub("messages", Kind::Random(15_000), messages),
            sub("masker", Kind::Random(20_000), masker),
            sub("bodies", Kind::Random(10_000), bodies),
        ],
    }
}

// ------------------------------------------------------------------ C25
pub fn cut_points(src: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = src.list(6, 3, |s| s.upto(n as u64) as usize);
    for _ in 0..src.stretch(60, 10) {
        v.push(src.upto(n as u64) as usize);
    }
    v.sort();
    v
}
pub fn split(m: &OwnedMessage, cuts: &[usize]) -> Vec<DataFrame> {
    let (op, data) = wire(m);
    let mut edges = vec![0];
    edges.extend_from_slice(cuts);
    edges.push(data.len());
    let n = edges.len() - 1;
    (0..n)
        .map(|i| DataFrame::new(i + 1 == n, if i == 0 { OPCODES[op as usize] } else { Opcode::Continuation }, data[edges[i]..edges[i + 1]].to_vec()))
        .collect()
}
fn over_wire(src: &mut Src, frames: &[DataFrame]) -> Result<Vec<DataFrame>, String> {
    let mut out: Vec<u8> = Vec::new();
    let mut keys = Vec::new();
    for f in frames {
        let k = key(src);
        keys.push(k);
        f.write_to(&mut out, k).map_err(|e| format!("write_to: {:?}", e))?;
    }
    let mut rest = &out[..];
    let mut got = Vec::new();
    for k in keys {
        got.push(DataFrame::read_dataframe(&mut rest, k.is_some()).map_err(|e| format!("read_dataframe: {:?}", e))?);
    }
    ensure!(rest.is_empty(), "{} octets left", rest.len());
    Ok(got)
}
fn messages(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = message(src, true);
    let (op, data) = wire(&m);
    let data_message = op < 8;
    let cuts = if data_message { cut_points(src, data.len()) } else { Vec::new() };
    ctx.input("message", &m);
    ctx.input("cuts", &cuts);
    ctx.nontrivial(!data.is_empty());
    ctx.class_if(!cuts.is_empty(), "fragmented");
    ctx.class(match op {
        1 => "text",
        2 => "binary",
        8 => "close",
        9 => "ping",
        _ => "pong",
    });
    if let OwnedMessage::Text(s) = &m {
        ctx.class_if(cuts.iter().any(|c| !s.is_char_boundary(*c)), "cut inside a character");
    }
    // every form of the message is the same single frame
    let k = key(src);
    let (mut a, mut b, mut c) = (Vec::new(), Vec::new(), Vec::new());
    m.write_to(&mut a, k).map_err(|e| format!("OwnedMessage::write_to: {:?}", e))?;
    borrowed(&m).write_to(&mut b, k).map_err(|e| format!("Message::write_to: {:?}", e))?;
    let conv: Message = m.clone().into();
    conv.write_to(&mut c, k).map_err(|e| format!("Message::write_to: {:?}", e))?;
    ensure!(a == b && a == c, "OwnedMessage and Message differ: {} / {} / {}", show(&a), show(&b), show(&c));
    let f = DataFrame::read_dataframe(&mut &a[..], k.is_some()).map_err(|e| format!("{:?}", e))?;
    let back = OwnedMessage::from_dataframes(vec![f]).map_err(|e| format!("own message refused: {:?}", e))?;
    same!("message as one frame", back, m);
    // cut into frames
    let parts = split(&m, &cuts);
    let parts = if src.bool() { over_wire(src, &parts)? } else { parts };
    let back = OwnedMessage::from_dataframes(parts).map_err(|e| format!("cut at {:?}: refused: {:?}", cuts, e))?;
    same!("message in pieces", back, m);
    // a message is a frame, too
    let back = OwnedMessage::from_dataframes(vec![m.clone()]).map_err(|e| format!("message as frame: {:?}", e))?;
    same!("message as its own frame", back, m);
    // conversions
    let back: OwnedMessage = borrowed(&m).into();
    same!("Message to OwnedMessage", back, m);
    let back: OwnedMessage = conv.into();
    same!("OwnedMessage to Message and back", back, m);
    same!("kind", (m.is_close(), m.is_ping(), m.is_pong(), m.is_control(), m.is_data()), (op == 8, op == 9, op == 10, op >= 8, op < 8));
    let mut p = borrowed(&m);
    let r = p.into_pong();
    same!("into_pong", r.is_ok(), op == 9);
    let after: OwnedMessage = p.into();
    match &m {
        OwnedMessage::Ping(d) => same!("pong", after, OwnedMessage::Pong(d.clone())),
        _ => same!("not a ping", after, m),
    }
    match m {
        OwnedMessage::Text(s) => same!("From<String>", OwnedMessage::from(s.clone()), OwnedMessage::Text(s)),
        OwnedMessage::Binary(d) => same!("From<Vec>", OwnedMessage::from(d.clone()), OwnedMessage::Binary(d)),
        OwnedMessage::Close(Some(c)) => {
            same!("CloseData::normal", CloseData::normal(), CloseData::new(1000u16, String::new()));
            same!("CloseData::new", CloseData::new(c.status_code, c.reason.clone()), c);
            same!("CloseData::into_bytes", c.into_bytes().unwrap(), data);
        }
        _ => {}
    }
    Ok(())
}
/// What a list of frames means.
fn ref_assemble(fr: &[DataFrame]) -> Result<OwnedMessage, &'static str> {
    let first = fr.first().ok_or("no frame")?;
    let mut data = Vec::new();
    for (i, f) in fr.iter().enumerate() {
        if f.reserved.iter().any(|b| *b) {
            return Err("reserved bits");
        }
        if i > 0 && f.opcode != Opcode::Continuation {
            return Err("new message inside a message");
        }
        data.extend_from_slice(&f.data);
    }
    match first.opcode {
        Opcode::Text => String::from_utf8(data).map(OwnedMessage::Text).map_err(|_| "text is not UTF-8"),
        Opcode::Binary => Ok(OwnedMessage::Binary(data)),
        Opcode::Ping => Ok(OwnedMessage::Ping(data)),
        Opcode::Pong => Ok(OwnedMessage::Pong(data)),
        Opcode::Close if data.is_empty() => Ok(OwnedMessage::Close(None)),
        Opcode::Close if data.len() == 1 => Err("one-byte close body"),
        Opcode::Close => match std::str::from_utf8(&data[2..]) {
            Ok(s) => Ok(OwnedMessage::Close(Some(CloseData {
                status_code: data[0] as u16 * 256 + data[1] as u16,
                reason: s.to_string(),
            }))),
            Err(_) => Err("close reason is not UTF-8"),
        },
        Opcode::Continuation => Err("starts with a continuation"),
        _ => Err("reserved opcode"),
    }
}
fn odd_utf8(src: &mut Src) -> Vec<u8> {
    let mut v = text(src, 12).into_bytes();
    for _ in 0..src.range(1, 2) {
        let i = src.below(v.len() + 1);
        match src.upto(4) {
            0 => v.truncate(i),
            1 => v.insert(i, *src.pick(&[0x80u8, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff, 0xfe])),
            2 => {
                let seq: &[u8] = src.pick(&[
                    &b"\xc0\xaf"[..],
                    b"\xe0\x80\xaf",
                    b"\xed\xa0\x80",
                    b"\xed\xbf\xbf",
                    b"\xf4\x90\x80\x80",
                    b"\xf0\x8f\xbf\xbf",
                    b"\xed\x9f\xbf",
                    b"\xf4\x8f\xbf\xbf",
                    b"\xef\xbf\xbe",
                    b"\xe2\x82\xac",
                    b"\xf0\x9f\x98\x80",
                ]);
                let t = v.split_off(i);
                v.extend_from_slice(seq);
                v.extend_from_slice(&t);
            }
            _ => {
                if i < v.len() {
                    v[i] = src.byte();
                }
            }
        }
    }
    v
}
fn assemble(src: &mut Src, ctx: &mut Ctx) -> R {
    let op = match src.upto(3) {
        0 | 1 => *src.pick(&[Opcode::Text, Opcode::Binary, Opcode::Close, Opcode::Ping, Opcode::Pong]),
        _ => OPCODES[src.below(16)],
    };
    let mut data = match src.upto(3) {
        0 => text(src, 20).into_bytes(),
        1 => src.bytes(40),
        _ => odd_utf8(src),
    };
    if op == Opcode::Close && src.chance(3, 4) {
        let mut v = vec![src.byte(), src.byte()];
        v.extend_from_slice(&data);
        data = v;
    }
    let mut edges = vec![0];
    edges.extend(cut_points(src, data.len()));
    edges.push(data.len());
    let n = edges.len() - 1;
    let mut fr: Vec<DataFrame> = (0..n)
        .map(|i| DataFrame::new(i + 1 == n, if i == 0 { op } else { Opcode::Continuation }, data[edges[i]..edges[i + 1]].to_vec()))
        .collect();
    match src.upto(7) {
        0 => {
            let i = src.place(n);
            fr[i].reserved[src.below(3)] = true;
        }
        1 if n > 1 => {
            let i = src.place(n).max(1);
            fr[i].opcode = OPCODES[src.below(16)];
        }
        2 => {
            fr.clear();
        }
        _ => {}
    }
    ctx.input("frames", &fr);
    let want = ref_assemble(&fr);
    ctx.nontrivial(true);
    match &want {
        Ok(_) => ctx.class("accepted"),
        Err(w) => ctx.class(w),
    }
    let got = OwnedMessage::from_dataframes(fr);
    match (got, want) {
        (Ok(g), Ok(w)) => same!("message", g, w),
        (Err(_), Err(_)) => {}
        (Ok(g), Err(w)) => return Err(format!("{}: assembled to {:?}", w, g)),
        (Err(e), Ok(w)) => return Err(format!("{:?} refused: {:?}", w, e)),
    }
    Ok(())
}
/// The two ways between a close reason and bytes, of any length: only a frame
/// limits it.
fn close_data(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut reason = match src.large(1 << 20) {
        Some(n) => String::from_utf8(src.bulk_of(n, b"abcdefghij 0123456789")).unwrap(),
        None => text(src, 300),
    };
    if src.chance(1, 3) {
        let n = src.scaled(14) as usize;
        reason.push_str(&String::from_utf8(src.bulk_of(n, b"abcdefghij 0123456789")).unwrap());
    }
    let code = src.scaled(16) as u16;
    ctx.input("code", &code);
    ctx.bytes("reason", reason.as_bytes());
    ctx.nontrivial(!reason.is_empty());
    ctx.class_if(reason.len() > 123, "longer than a frame holds");
    let c = CloseData::new(code, reason.clone());
    same!("CloseData", (c.status_code, &c.reason), (code, &reason));
    let want = [&code.to_be_bytes()[..], reason.as_bytes()].concat();
    let got = c.into_bytes().map_err(|e| format!("{:?}", e))?;
    ensure!(got == want, "into_bytes gives {} octets {}, expected {} {}", got.len(), show(&got), want.len(), show(&want));
    let mut f = DataFrame::new(true, Opcode::Close, want);
    f.opcode = Opcode::Close;
    let back = OwnedMessage::from_dataframes(vec![f]).map_err(|e| format!("{:?}", e))?;
    same!("close message", back, OwnedMessage::Close(Some(CloseData { status_code: code, reason })));
    Ok(())
}
pub fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "messages of all five kinds with Unicode text, arbitrary binary data and any close code, in owned and borrowed form, written as one frame and (text and binary) cut at up to six arbitrary points, also inside characters, in memory and over the wire with a key per frame; frame lists with damaged UTF-8, reserved bits, stray opcodes, short close bodies and no frame compared with a reference assembler; a share of the payloads is up to 4 MiB long. Non-trivial: a non-empty payload, or any frame list to judge.",
        assumptions: &["the frames of a list carry FIN on the last frame only"],
        subs: vec![
            sub("messages", Kind::Random(30_000), messages),
            sub("assemble", Kind::Random(50_000), assemble),
            sub("close_data", Kind::Random(5_000), close_data),
            sub("large", Kind::Random(150), |s, c| {
                s.arm(22);
                messages(s, c)
            }),
            sub("frames", Kind::Random(8_000), frames),
        ],
    }
}

// ------------------------------------------------------------------ C06
fn consume(bytes: &[u8], limit: Option<usize>, masked: bool) -> R {
    let mut m = Metered::new(bytes);
    let mut seen = Vec::new();
    loop {
        let before = m.remaining();
        let r = match limit {
            None => DataFrame::read_dataframe(&mut m, masked),
            Some(n) => DataFrame::read_dataframe_with_limit(&mut m, masked, n),
        };
        match r {
            Ok(f) => {
                ensure!(f.data.len() + 2 <= before, "{} octets of payload from {} octets", f.data.len(), before);
                if let Some(n) = limit {
                    ensure!(f.data.len() <= n, "payload of {} octets with limit {}", f.data.len(), n);
                }
                ensure!(m.remaining() + 2 + f.data.len() <= before, "frame consumed too little");
                let mut out = Vec::new();
                let _ = f.write_to(&mut out, None);
                let _ = (format!("{:?}", f), f.frame_size(true), f.is_last());
                seen.push(f);
            }
            Err(e) => {
                let _ = (format!("{:?} {}", e, e), m.remaining() <= before);
                break;
            }
        }
    }
    for n in 0..=seen.len().min(4) {
        let _ = finish(OwnedMessage::from_dataframes(seen[..n].to_vec()));
    }
    let _ = finish(OwnedMessage::from_dataframes(seen));
    Ok(())
}
fn finish<E>(r: Result<OwnedMessage, E>) {
    if let Ok(m) = r {
        let _ = (m.message_size(true), format!("{:?}", m), m.is_control());
        let mut out = Vec::new();
        let _ = m.write_to(&mut out, Some([1, 2, 3, 4]));
        let b: Message = m.into();
        let _: OwnedMessage = b.into();
    }
}
fn stream(src: &mut Src) -> Vec<u8> {
    let mut out = Vec::new();
    for _ in 0..src.range(1, 4) {
        let m = message(src, true);
        let cuts = if src.bool() { cut_points(src, wire(&m).1.len()) } else { Vec::new() };
        for f in split(&m, &cuts) {
            let k = key(src);
            out.extend(ref_write(&Head { first: if f.finished { 0x80 } else { 0 } | f.opcode as u8, mask: k, len: f.data.len() as u64 }));
            out.extend(xor(k, &f.data));
        }
        if out.len() > 2000 {
            break;
        }
    }
    out
}
fn read_bytes(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut b = match src.upto(3) {
        0 => src.bytes(200),
        _ => stream(src),
    };
    if src.chance(3, 4) {
        mutate(src, &mut b);
    }
    let limit = match src.upto(2) {
        0 => None,
        1 => Some(src.size(200)),
        _ => Some(src.scaled(64) as usize),
    };
    let masked = src.bool();
    ctx.bytes("bytes", &b);
    ctx.input("limit", &limit);
    ctx.nontrivial(b.len() > 2 && ref_read(&b).is_ok());
    bounded(b.len(), "reading frames", || consume(&b, limit, masked))??;
    let _ = bounded(b.len(), "read_header", || {
        let mut m = Metered::new(&b);
        let r = read_header(&mut m).is_ok();
        (r, m.remaining())
    })?;
    Ok(())
}
/// All short inputs, through every entry.
fn short_bytes(src: &mut Src, ctx: &mut Ctx) -> R {
    let i = src.index;
    let b = [(i / 256) as u8, (i % 256) as u8];
    ctx.input("start", &b);
    ctx.nontrivial(true);
    let tails: &[&[u8]] = &[
        b"",
        b"\0",
        b"\xff\xff",
        b"\0\x7e",
        b"\xff\xff\xff\xff\xff\xff\xff\xff",
        b"\x7f\xff\xff\xff\xff\xff\xff\xff",
        b"\0\0\0\0\0\x01\0\0",
        b"\xff\xff\xff\xff\xff\xff\xff\xff\x01\x02\x03\x04\x05",
        b"\x01\x02\x03\x04\x05\x06\x07\x08\x09",
    ];
    for t in tails {
        let v = [&b[..], t].concat();
        for limit in [None, Some(0), Some(usize::MAX)] {
            consume(&v, limit, false)?;
        }
    }
    consume(&b[..1], None, true)
}
fn any_frames(src: &mut Src, ctx: &mut Ctx) -> R {
    let fr: Vec<DataFrame> = src.list(8, 3, |s| {
        let mut f = DataFrame::new(s.bool(), OPCODES[s.below(16)], if s.bool() { odd_utf8(s) } else { s.bytes(300) });
        if s.chance(2, 3) && s.tape.len() > 3 {
            f.opcode = Opcode::Continuation;
        }
        f.reserved = [s.chance(1, 20), s.chance(1, 20), s.chance(1, 20)];
        f
    });
    ctx.input("frames", &fr);
    ctx.nontrivial(!fr.is_empty());
    let n: usize = fr.iter().map(|f| f.data.len()).sum();
    let _ = bounded(n, "from_dataframes", || finish(OwnedMessage::from_dataframes(fr)))?;
    Ok(())
}
/// Four times the input costs about four times the memory.
fn growth(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = src.range(40, 300) as usize;
    let text = src.bool();
    let each = src.range(0, 30) as usize;
    let one = src.chance(1, 3);
    let mask = key(src);
    ctx.nontrivial(true);
    ctx.class(if one { "one frame" } else { "fragments" });
    let frame = |first: u8, n: usize| {
        let data = vec![b'a'; n];
        let mut b = ref_write(&Head { first, mask, len: n as u64 });
        b.extend(xor(mask, &data));
        b
    };
    let op = if text { 1 } else { 2 };
    let make = |k: usize| -> Vec<u8> {
        if one {
            return frame(0x80 | op, 30 * k);
        }
        (0..k).flat_map(|i| frame(if i + 1 == k { 0x80 } else { 0 } | if i == 0 { op } else { 0 }, each)).collect()
    };
    linear("message", ctx, k, make, |b| {
        let mut m = Binary::from(b.to_vec());
        let mut v = Vec::new();
        while let Ok(f) = DataFrame::read_dataframe(&mut m, mask.is_some()) {
            v.push(f);
        }
        finish(OwnedMessage::from_dataframes(v));
    })
}
pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "arbitrary bytes and mutated streams of fragmented, masked frames read to the end with and without limits through a buffer that counts accesses, under an allocation bound, the frames assembled, converted and written again; all 65536 first two octets with nine continuations and three limits; arbitrary frame lists assembled. A panic (also an overflow or a failed internal assertion), an access beyond the input or more payload than the limit is a violation. Non-trivial: a readable first header, or a non-empty frame list.",
        assumptions: &[],
        subs: vec![
            sub("short_bytes", Kind::Every(65536), short_bytes),
            sub("read_bytes", Kind::Random(60_000), read_bytes),
            sub("any_frames", Kind::Random(30_000), any_frames),
            sub("growth", Kind::Random(2_000), growth),
        ],
    }
}
