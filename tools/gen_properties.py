#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in git; rerun after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "HTTP/1 requests survive serialise then parse",
  "Serialising any HTTP/1 request (any known method, version, target path and query, header list with distinct names whose values contain no CR/LF and have no space or tab at either end, any body) and parsing the bytes gives back the same method, version, path, query and ordered headers, and the number of bytes consumed is exactly the length of the head so the body follows untouched. "
  "A CONNECT request keeps its host and port. Parsing a request, serialising it and parsing it again changes none of these. The bytes have the RFC 7230 form: method, escaped target and version with one space between them, then one 'name: value' line for each header, every line ended by CRLF.",
  ["inputs"], "all requests a client can build or receive, over methods, versions, decoded path/query text (UTF-8, reserved characters, percent signs, spaces), header lists and bodies",
  "the existing tests serialise four fixed targets; two of them (with a query) fail at the base commit and no test uses a path that needs escaping",
  ["src/http/request.rs", "src/http/header.rs", "src/helper.rs", "src/url/url.rs"],
  [("Request::encode_header / http1_data", "src/http/request.rs"), ("Request::parse_buffer", "src/http/request.rs"), ("HeaderMap::encode", "src/http/header.rs"), ("Helper::parse_header", "src/helper.rs")],
  ["Request::http1_data", "Request::encode_header", "Request::parse"])

p("C02", "HTTP/1 responses survive serialise then parse",
  "Serialising any response with a registered status code, an HTTP version, a header list with distinct names (values without CR/LF and without a space or tab at either end) and any body, and parsing the bytes, gives back the same version, status and ordered headers, and consumes exactly the head. "
  "Any three-digit status line is parsed whatever its reason phrase is, including an empty one. The bytes have the RFC 7230 form: version, status and phrase with one space between them, then one 'name: value' line for each header, every line ended by CRLF.",
  ["inputs"], "all responses over registered status codes, versions, header lists, bodies and reason phrases",
  "tests build a handful of responses and never feed the output back to the parser",
  ["src/http/response.rs", "src/http/status.rs", "src/http/header.rs", "src/helper.rs"],
  [("Response::serialize / httpdata / encode_header", "src/http/response.rs"), ("Response::parse_buffer", "src/http/response.rs"), ("StatusCode::encode", "src/http/status.rs")],
  ["Response::httpdata", "Response::parse"])

p("C03", "HTTP/1 parsing finds the end of the head, and only there",
  "For a well-formed request or response head, every strict prefix is reported as incomplete (a partial error) and the whole head is accepted with a consumed length equal to its own length, whatever bytes follow it, whichever buffer type carries it and whatever the parsed object held before. "
  "Lines may end in CRLF or a bare LF, and the spaces and tabs around a header value are not part of it. A head that violates the grammar is rejected with an error that is not 'incomplete' once the offending bytes and the end of the head are present.",
  ["inputs", "histories"], "every split point of every well-formed head, every continuation after it, every previous use of the object, and single-point corruptions of well-formed heads",
  "tests check one prefix of one request; the guarantee is about every prefix of every head",
  ["src/http/request.rs", "src/http/response.rs", "src/helper.rs"],
  [("Helper::skip_new_line, skip_empty_lines, parse_header, parse_token_by_func", "src/helper.rs"), ("parse_buffer", "src/http/request.rs, src/http/response.rs"), ("WebError::is_partial", "src/error.rs")],
  ["Request::parse / parse_buffer", "Response::parse / parse_buffer", "is_partial"],
  state=[("partial", "whether the object holds a complete head", "src/http/request.rs")])

p("C04", "Untrusted HTTP/1, URL and chunk bytes never crash or hang the parser",
  "For any byte string, parsing it as a request, a response, a URL, a percent-encoded string or a chunk, and then using the result through its accessors and re-serialising it, returns a value or an error after reading the input and allocating memory in proportion to its length; it never panics, overflows or loops.",
  ["inputs"], "all byte strings, concentrated on mutations of valid messages",
  "tests only parse valid messages; crashes live in the malformed remainder",
  ["src/helper.rs", "src/http/request.rs", "src/http/response.rs", "src/http/header.rs", "src/http/value.rs", "src/url/url.rs"],
  [("parse functions returning WebResult", "src/helper.rs, src/url/url.rs"), ("header value conversions", "src/http/value.rs")],
  ["Request::parse", "Response::parse", "Url::parse", "Url::url_decode", "Helper::parse_chunk_data", "accessors"])

p("C05", "Untrusted HTTP/2 and HPACK bytes never crash or hang the parser",
  "For any byte string and any sequence of frames on one connection, decoding frame headers, frames, header blocks, Huffman strings and HTTP2-Settings values returns a value or an error after a number of steps bounded by the input size; it never panics, overflows or loops, whatever state earlier input left in the compression tables.",
  ["inputs", "histories"], "all frame sequences, concentrated on mutations of valid connections",
  "tests decode the RFC examples; the crashes are in malformed input and in table states no test reaches",
  ["src/http/http2/frame/frame.rs", "src/http/http2/frame/headers.rs", "src/http/http2/frame/settings.rs", "src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/huffman.rs"],
  [("Frame::parse and per-frame parsers", "src/http/http2/frame"), ("Decoder::decode_with_cb", "src/http/http2/hpack/decoder.rs"), ("HuffmanDecoder::decode", "src/http/http2/hpack/huffman.rs")],
  ["FrameHeader::parse", "Frame::parse", "Decoder::decode", "HuffmanDecoder::decode", "Settings::parse_http_settings"])

p("C06", "Untrusted WebSocket bytes never crash or hang the parser",
  "For any byte string, reading WebSocket frame headers and data frames (with or without a size limit) and assembling messages from any list of frames returns a value or an error; it never panics, reads past the input, or yields more payload than the limit allows.",
  ["inputs", "histories"], "all byte strings and all frame lists, concentrated on mutations of valid streams",
  "tests read a few well-formed frames",
  ["src/ws/frame_header.rs", "src/ws/dataframe.rs", "src/ws/message.rs"],
  [("read_header", "src/ws/frame_header.rs"), ("DataFrame::read_dataframe, read_dataframe_with_limit", "src/ws/dataframe.rs"), ("OwnedMessage::from_dataframes", "src/ws/message.rs")],
  ["ws::frame_header::read_header", "DataFrame::read_dataframe*", "OwnedMessage::from_dataframes"])

p("C07", "Chunked bodies decode to exactly the bytes that were encoded",
  "Encoding any sequence of byte strings as HTTP chunks and decoding the result chunk by chunk yields the same sequence and consumes it exactly; the reported header size and data length locate each chunk's data. "
  "Every strict prefix of a chunk is reported as incomplete, a hexadecimal size in either case and with leading zeros is understood, and a size line that is not a hexadecimal number ended by a line break is rejected, not reported as incomplete.",
  ["inputs"], "all chunk sequences, split points and malformed size lines",
  "one test decodes one chunk; sizes near the integer limit and split points are not sampled",
  ["src/helper.rs"],
  [("Helper::encode_chunk_data", "src/helper.rs"), ("Helper::parse_chunk_data", "src/helper.rs")],
  ["Helper::encode_chunk_data", "Helper::parse_chunk_data"])

p("C08", "A header map is an insertion-ordered map with case-insensitive names",
  "After any sequence of insertions, appends, removals, clears and indexed updates, a header map behaves like an insertion-ordered map keyed by the ASCII-case-insensitive header name: inserting replaces the value in place (the name keeps the spelling it was first given), appending joins values with ';', removing returns the value and forgets the name, and lookups, length, iteration and the serialised form all agree with that model. Named system values kept beside the headers read back as last set, whatever is done to the headers.",
  ["histories"], "all operation sequences over names differing in case, length and representation (static or owned)",
  "tests perform single operations; ordering and replacement errors need sequences",
  ["src/http/header.rs", "src/http/value.rs", "src/http/name.rs"],
  [("HeaderMap::insert/push/remove/get_*", "src/http/header.rs"), ("HeaderValue::push", "src/http/value.rs")],
  ["HeaderMap public API", "HeaderMap::encode", "Display"],
  state=[("headers", "ordered list of name/value pairs", "src/http/header.rs")])

p("C09", "Header names and values compare equal exactly when they should",
  "Two header names are equal if and only if they have the same bytes ignoring ASCII letter case, whatever way they were made (constant, static string, owned string, bytes), and equal names hash equally; two header values are equal if and only if their bytes are equal, and equal values hash equally.",
  ["inputs"], "all pairs of names and values, concentrated on pairs that differ in one byte or one bit",
  "no test compares unequal names that differ only in bit 5 of a non-letter",
  ["src/http/name.rs", "src/http/value.rs", "src/helper.rs"],
  [("PartialEq/Hash for HeaderName", "src/http/name.rs"), ("PartialEq/Hash for HeaderValue", "src/http/value.rs"), ("Helper::eq_bytes_ignore_ascii_case", "src/helper.rs")],
  ["==", "Hash", "HeaderMap lookups"])

p("C10", "Numeric header values convert exactly or fail",
  "A header value holding a decimal numeral (digits, with an optional leading '-' for signed) converts to exactly that integer when it fits the target type and to an error when it does not; a value with any other text converts to an error, never to a wrong number or a panic, and an integer stored as a header value reads back unchanged. "
  "The body length of a message is the Content-Length when that value is a number that fits and 0 when it is absent or unusable.",
  ["inputs"], "all integers near the type limits, all digit strings of any length, and near-numerals such as '--5', '0-5', '5a'",
  "tests read small lengths only",
  ["src/http/value.rs", "src/http/header.rs"],
  [("TryInto<usize>/TryInto<isize> for &HeaderValue", "src/http/value.rs"), ("HeaderMap::get_body_len", "src/http/header.rs")],
  ["TryInto<usize>", "TryInto<isize>", "get_body_len"])

p("C11", "Printing a URL and parsing it back gives the same URL",
  "For any URL that has a scheme, a host, a port, an absolute path and, optionally, both user name and password and a query (all arbitrary Unicode text apart from the port), printing it and parsing the text gives an equal URL. "
  "For any text that parses as a URL, printing the result and parsing again gives an equal URL, also for URLs without scheme and host. A text that needs no escape is printed as it was written, less a default port of http or https, and a URL equals exactly its own text; a user name or a password alone survives too.",
  ["inputs"], "all URL component values including reserved characters, percent signs and non-ASCII text, with default and non-default ports",
  "tests print only URLs whose components need no escaping",
  ["src/url/url.rs", "src/url/builder.rs", "src/url/scheme.rs", "src/helper.rs"],
  [("Display for Url", "src/url/url.rs"), ("Url::parse", "src/url/url.rs"), ("Url::url_encode", "src/url/url.rs")],
  ["to_string", "Url::parse", "Url::builder"])

p("C12", "URLs are split into components as RFC 3986 prescribes",
  "For every fragment-free URL (with a scheme of at most 64 characters) of the form scheme://[user:password@]host[:port][/path][?query] and every origin-form path[?query], parsing yields exactly those components percent-decoded, with the scheme's default port when none is given and '/' when there is no path; in particular the authority ends at the first '/' or '?', so '@' or ':' later in the URL never changes the host. "
  "A port that is not a number up to 65535, a second '@' in the authority, a broken percent escape, or a byte outside printable ASCII makes the URL invalid. Every way of parsing a text (bytes, str, String, parse()) gives the same outcome. The authority and connection address derived from the URL are built from exactly that host and port.",
  ["inputs"], "all URLs of that grammar, concentrated on delimiters appearing in unusual components, and single-point corruptions of them",
  "four fixed URLs are tested; host confusion needs delimiters in unusual places",
  ["src/url/url.rs", "src/url/scheme.rs", "src/helper.rs"],
  [("Url::parse state machine", "src/url/url.rs"), ("Url::get_authority, get_connect_url", "src/url/url.rs"), ("Scheme::parse_scheme", "src/url/scheme.rs")],
  ["Url::parse / TryFrom / FromStr", "Url fields"])

p("C13", "Percent-encoding is lossless and emits only safe characters",
  "Percent-encoding any text and decoding it gives the text back, and the encoded form consists only of letters, digits, the characters '&=@:?/-._~' and well-formed %XX escapes, every character being encoded the same way wherever it stands; decoding resolves every %XX escape in either hex case and leaves every other character as it is. "
  "A '%' that is not followed by two hexadecimal digits makes decoding fail.",
  ["inputs"], "all Unicode strings, and all strings with complete, truncated or malformed escapes",
  "one fixed string is tested",
  ["src/url/url.rs", "src/helper.rs"],
  [("Url::url_encode, Url::url_decode", "src/url/url.rs"), ("Helper::convert_hex, to_hex, URITRANS_MAP", "src/helper.rs")],
  ["Url::url_encode", "Url::url_decode"])

p("C14", "The HPACK Huffman code is the RFC 7541 code",
  "Huffman-encoding any octet string gives exactly the RFC 7541 Appendix B code padded with one-bits to a byte boundary, and decoding it gives the string back. "
  "Decoding any other byte string agrees with the RFC: it yields the unique string it encodes, or an error when the padding exceeds 7 bits, is not all ones, or the end-of-string symbol occurs.",
  ["inputs"], "all octet strings and all bit strings, including exhaustively all one- and two-octet inputs",
  "tests decode the RFC examples, which use few symbols and no error path",
  ["src/http/http2/hpack/huffman.rs"],
  [("HuffmanEncoder::encode", "src/http/http2/hpack/huffman.rs"), ("HuffmanDecoder::decode", "src/http/http2/hpack/huffman.rs"), ("HUFFMAN_CODE_ARRAY", "src/http/http2/hpack/huffman.rs")],
  ["HuffmanEncoder::encode", "HuffmanDecoder::decode"])

p("C15", "HPACK encoder and decoder stay in step over a whole connection",
  "For any sequence of header lists encoded with one encoder and decoded in order with one decoder that started with equal table sizes, each decoded list equals the encoded one (names lower-cased or equal ignoring case, values byte-identical, same order), and after every list both dynamic tables hold the same entries and sizes; any other RFC 7541 decoder reading the same blocks gets the same lists.",
  ["histories"], "all sequences of header lists, with repeats, static-table names and values, sizes that force eviction, values larger than the table and different table limits",
  "tests run three fixed requests; divergence appears only after eviction or with large indices",
  ["src/http/http2/hpack/encoder.rs", "src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/header_index.rs"],
  [("Encoder::encode_header_into", "src/http/http2/hpack/encoder.rs"), ("Decoder::decode_with_cb", "src/http/http2/hpack/decoder.rs"), ("HeaderIndex", "src/http/http2/hpack/header_index.rs")],
  ["Encoder::encode", "Decoder::decode", "HeaderIndex::to_vec / get_size"],
  state=[("dynamic table", "ordered recent fields shared by both ends", "src/http/http2/hpack/header_index.rs")])

p("C16", "The HPACK decoder accepts any RFC 7541 encoder's output",
  "For any header block sequence produced by a conforming encoder, using every representation (indexed, literal with, without and never indexed; plain or Huffman strings; static and dynamic indices of any size; dynamic table size updates within the limit), the decoder yields exactly the encoded fields and the table state RFC 7541 prescribes. "
  "Index 0, an index beyond the tables, a truncated integer or string, and a size update above the limit are rejected.",
  ["histories", "inputs"], "all block sequences of an independent RFC 7541 encoder, and malformed blocks derived from them",
  "the RFC examples exercise a few small indices and no size update; the library's own encoder emits only some representations",
  ["src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/header_index.rs"],
  [("Decoder::decode_with_cb / decode_integer / decode_string / decode_literal", "src/http/http2/hpack/decoder.rs"), ("STATIC_TABLE_RAW", "src/http/http2/hpack/header_index.rs")],
  ["Decoder::decode", "HeaderIndex::to_vec / get_size"])

p("C17", "The HPACK dynamic table accounts and evicts as RFC 7541 says",
  "After any sequence of additions and size changes, the dynamic table holds exactly the most recent entries whose sizes (name length + value length + 32) fit the current maximum, reports their total size, returns entry n at index 61+n and the RFC static table at indices 1 to 61, and nothing elsewhere. "
  "A field lookup only ever returns an index whose name equals the field's name and, for a full match, whose value is equal too.",
  ["histories"], "all sequences of additions, resizes and lookups, with entries around and above the maximum size",
  "tests never fill or shrink the table",
  ["src/http/http2/hpack/header_index.rs"],
  [("HeaderIndex::add_header, set_max_table_size, consolidate_table", "src/http/http2/hpack/header_index.rs"), ("get_from_index, find_header", "src/http/http2/hpack/header_index.rs")],
  ["HeaderIndex public API"],
  state=[("table,size,max_size", "entries, accounted size, limit", "src/http/http2/hpack/header_index.rs")])

p("C18", "HTTP/2 fixed-layout frames match the RFC wire format both ways",
  "For any PING, RST_STREAM, WINDOW_UPDATE, GOAWAY and PRIORITY frame with any field values, encoding produces exactly the RFC 7540 bytes (length, type, flags, stream id, payload) and parsing those bytes gives the same frame; frame headers round-trip for every length, known type, known flags and 31-bit stream id, with the reserved bit, and flags that mean nothing for these frame types, ignored on receipt.",
  ["inputs"], "all field values of these frames and headers",
  "tests use one or two fixed frames each",
  ["src/http/http2/frame/frame.rs", "src/http/http2/frame/ping.rs", "src/http/http2/frame/reset.rs", "src/http/http2/frame/window_update.rs", "src/http/http2/frame/go_away.rs", "src/http/http2/frame/priority.rs", "src/http/http2/frame/reason.rs", "src/http/http2/frame/mod.rs"],
  [("FrameHeader::parse/encode", "src/http/http2/frame/frame.rs"), ("parse/encode of each frame", "src/http/http2/frame")],
  ["Frame::parse", "Frame::encode", "FrameHeader::parse/encode"])

p("C19", "Malformed HTTP/2 frames are rejected",
  "A frame is rejected with an error if it is a PING, RST_STREAM or WINDOW_UPDATE whose payload is not 8, 4 or 4 bytes, a GOAWAY shorter than 8, a PRIORITY or priority-flagged HEADERS shorter than 5, a SETTINGS whose payload is not a multiple of 6 or an acknowledgement with payload, a SETTINGS or PING on a non-zero stream, DATA on stream 0, a zero window increment, a PRIORITY depending on itself, or a padded DATA, HEADERS or PUSH_PROMISE frame whose padding does not fit the payload, a PUSH_PROMISE shorter than 4, or a HEADERS or PUSH_PROMISE whose header list exceeds the caller's maximum (each field counting its name, its value and 32), after which the compression state is still in step. "
  "The same frame with the fault removed is accepted.",
  ["inputs"], "all payload sizes, stream ids and flag values for each frame type",
  "tests feed only valid frames",
  ["src/http/http2/frame/frame.rs", "src/http/http2/frame/ping.rs", "src/http/http2/frame/reset.rs", "src/http/http2/frame/window_update.rs", "src/http/http2/frame/go_away.rs", "src/http/http2/frame/priority.rs", "src/http/http2/frame/settings.rs", "src/http/http2/frame/headers.rs"],
  [("validation in each parse function", "src/http/http2/frame"), ("Frame::trim_padding", "src/http/http2/frame/frame.rs")],
  ["Frame::parse"])

p("C20", "DATA frames respect the frame size limit and reassemble exactly",
  "Encoding any payload as DATA with any maximum frame size from 1 to 2^24-1 bytes yields a sequence of well-formed DATA frames on the same stream, none longer than the limit, whose payloads concatenate to the original; END_STREAM is set on the last frame if and only if it was requested and on no other. Mapping the payload of a DATA frame to another changes neither its stream nor its flags.",
  ["inputs", "configurations"], "all payloads, limits and flag combinations",
  "no test splits a payload",
  ["src/http/http2/frame/data.rs", "src/http/http2/frame/frame.rs"],
  [("Data::encode", "src/http/http2/frame/data.rs")],
  ["Frame::encode", "Frame::parse", "Data::payload"])

p("C21", "Header frames respect the frame size limit and carry every header",
  "Encoding any HEADERS or PUSH_PROMISE frame (pseudo-header fields set through the frame or the field list, any regular fields) with any maximum frame size (at least 4 for a push; 16384 unless set) yields a HEADERS frame followed by zero or more CONTINUATION frames on the same stream, each within the limit, END_HEADERS only on the last and END_STREAM on the HEADERS frame if and only if requested; a push yields such a run starting with PUSH_PROMISE that carries the promised stream and the request pseudo-headers, then the HEADERS run of the promised stream with the status and the regular fields. "
  "The concatenated blocks decode to exactly the fields given, pseudo-header fields first, and parsing the frames gives back the same pseudo-header values and fields over a whole connection; received HEADERS frames are equal if and only if they have the same stream, flags, priority, pseudo-headers and fields.",
  ["inputs", "histories", "configurations"], "all field lists, pseudo-header settings, frame size limits and sequences of such frames on one connection",
  "no test encodes a header frame larger than one frame or checks pseudo-headers after encoding",
  ["src/http/http2/frame/headers.rs", "src/http/http2/frame/frame.rs"],
  [("HeaderBlock::encode", "src/http/http2/frame/headers.rs"), ("Headers::parse, PushPromise::parse", "src/http/http2/frame/headers.rs"), ("Parts::encode_header", "src/http/http2/frame/headers.rs")],
  ["Frame::encode", "Frame::parse", "Headers accessors"])

p("C22", "SETTINGS values round-trip and illegal values are refused",
  "For any legal combination of settings, the encoded SETTINGS frame and the HTTP2-Settings header value decode to the same settings, and the frame is byte-for-byte the RFC layout with each present setting once. "
  "When parsing, the last occurrence of a repeated setting wins, unknown identifiers are ignored, and an ENABLE_PUSH or CONNECT-protocol value above 1, an initial window above 2^31-1 or a frame size outside 2^14 to 2^24-1 is refused. Flags other than ACK are ignored.",
  ["inputs", "configurations"], "all identifier/value sequences, concentrated on boundary values",
  "tests encode one setting combination",
  ["src/http/http2/frame/settings.rs"],
  [("Settings::parse / parse_setting / encode / for_each", "src/http/http2/frame/settings.rs"), ("encode_http_settings, parse_http_settings", "src/http/http2/frame/settings.rs")],
  ["Settings::parse", "Settings::encode", "encode_http_settings", "parse_http_settings"])

p("C23", "WebSocket frame headers follow RFC 6455 in both directions",
  "Writing any frame header (flags, opcode, mask, length) produces exactly the RFC 6455 bytes with the shortest length form, and reading those bytes gives the same header and consumes nothing more; an opcode above 15 or a control frame longer than 125 bytes is refused when writing. "
  "Reading refuses non-minimal lengths, control frames longer than 125 bytes or without FIN, and truncated headers.",
  ["inputs"], "all flags, opcodes, masks and lengths, concentrated at 125/126, 65535/65536 and 2^63",
  "tests read and write two headers",
  ["src/ws/frame_header.rs"],
  [("read_header, write_header", "src/ws/frame_header.rs")],
  ["read_header", "write_header"])

p("C24", "WebSocket data frames survive masking, writing and reading",
  "Writing any data frame or message with any masking key or none and reading it back gives the same FIN, reserved bits, opcode and payload, consumes exactly the written bytes, and the written size equals the announced frame size; masked payload bytes are the payload XORed with the repeating key. "
  "A truncated frame or one whose header RFC 6455 forbids is refused, and a limited read refuses a frame exactly when its payload exceeds the limit.",
  ["inputs"], "all payloads, keys, opcodes, flags, truncation points and limits, and sequences of frames in one buffer",
  "tests use one 43-byte payload",
  ["src/ws/dataframe.rs", "src/ws/mask.rs", "src/ws/frame_header.rs"],
  [("DataFrameable::write_to, frame_size", "src/ws/dataframe.rs"), ("Masker, mask_data", "src/ws/mask.rs"), ("read_dataframe, read_dataframe_with_limit", "src/ws/dataframe.rs")],
  ["write_to", "frame_size", "read_dataframe", "read_dataframe_with_limit"])

p("C25", "WebSocket messages survive fragmentation and validate their content",
  "Any text, binary, ping, pong or close message written as one frame, and any text or binary message cut into a first frame and continuation frames at arbitrary points, is reassembled to an equal message; the owned and borrowed forms of a message convert to each other and write the same bytes. "
  "Text or a close reason that is not valid UTF-8, a one-byte close body, a non-continuation frame inside a message, a message starting with a continuation or reserved opcode, set reserved bits, or an empty frame list is refused.",
  ["inputs", "histories"], "all messages, cut points (also inside multi-byte characters) and invalid frame lists",
  "tests convert single-frame ASCII messages",
  ["src/ws/message.rs", "src/ws/dataframe.rs"],
  [("Message::from_dataframes", "src/ws/message.rs"), ("OwnedMessage conversions", "src/ws/message.rs"), ("CloseData", "src/ws/message.rs")],
  ["OwnedMessage::from_dataframes", "DataFrameable for OwnedMessage/Message"])

p("C26", "Status codes are exactly the three-digit numbers 100-999",
  "A status code can be made from a number or from text if and only if it denotes 100 to 999 in exactly three digits; its number, text, pseudo-header, class predicates and ordering all agree with that number, and its HTTP/1 line is the number, a space and the registered phrase. "
  "Numbers without a registered phrase have no HTTP/1 line form and are reported as an error rather than mis-encoded.",
  ["inputs"], "all 65536 numbers and all byte strings of up to 3 bytes over a digit-like alphabet, plus longer strings",
  "tests try a few codes; the digit table has 900 entries",
  ["src/http/status.rs"],
  [("StatusCode::from_u16/from_bytes/as_str", "src/http/status.rs"), ("CODE_DIGITS, canonical_reason", "src/http/status.rs")],
  ["StatusCode public API"])

p("C27", "Protocol tokens and registries map one-to-one",
  "Every method, HTTP version, URL scheme, HTTP/2 frame type and error code, WebSocket opcode and close code converts to its wire form and back without loss, distinct wire forms give distinct values, and tokens outside the set are refused or mapped to the documented catch-all that preserves them. "
  "Parsing a method or scheme through the standard string conversion ignores letter case. GET, HEAD, OPTIONS and CONNECT are the methods reported to carry no request body, and HEAD, OPTIONS and CONNECT the ones reported to have no response body.",
  ["inputs"], "all registry members, all numeric codes, and arbitrary tokens near the members",
  "tests check single members",
  ["src/http/method.rs", "src/http/version.rs", "src/url/scheme.rs", "src/http/http2/frame/kind.rs", "src/http/http2/frame/reason.rs", "src/ws/message.rs", "src/ws/dataframe.rs"],
  [("TryFrom/FromStr/Display for Method, Version, Scheme", "src/http/method.rs, src/http/version.rs, src/url/scheme.rs"), ("Kind::new/encode", "src/http/http2/frame/kind.rs"), ("CloseCode, Opcode", "src/ws")],
  ["conversions"])

p("C28", "Extensions hold at most one value per type",
  "After any sequence of insertions, lookups, mutations, removals, clears and merges of values of different types, the extension store behaves as a map from type to value: insertion returns the previous value of that type, and operations on one type never affect another.",
  ["histories"], "all operation sequences over several types",
  "tests perform one short fixed sequence",
  ["src/extensions.rs"],
  [("Extensions", "src/extensions.rs")],
  ["Extensions public API"],
  state=[("map", "type id to boxed value", "src/extensions.rs")])

p("C29", "Every encoder reports exactly the number of bytes it wrote",
  "For any message, header, chunk, HTTP/2 frame or WebSocket frame, the size returned by its encoder equals the number of bytes appended to the buffer, and bytes already in the buffer are left unchanged.",
  ["inputs"], "all encodable values, written after arbitrary earlier buffer contents",
  "tests ignore the returned sizes",
  ["src/http/request.rs", "src/http/response.rs", "src/http/header.rs", "src/http/http2/frame", "src/ws/dataframe.rs", "src/serialize.rs", "src/helper.rs"],
  [("encode/serialize return values", "all encoders")],
  ["return values of encode*/serialize/write_to"])

p("C30", "Values cannot inject extra lines into a serialised head",
  "Whatever method, header names and values, URL, path or query are put into a request or response, serialising it either fails or yields bytes whose head parses as a single message with exactly the headers that were set, in order, followed by exactly the body: no value can end a line, add a header or end the head early.",
  ["inputs"], "all header values and URLs including CR, LF and percent-encoded line breaks, set through builders, maps or the parser",
  "no test uses a value with line breaks; the documentation promises an error for one",
  ["src/http/header.rs", "src/http/method.rs", "src/http/request.rs", "src/http/response.rs", "src/url/url.rs"],
  [("Method::encode", "src/http/method.rs"), ("HeaderMap::encode", "src/http/header.rs"), ("Request::encode_header", "src/http/request.rs"), ("Response::serialize", "src/http/response.rs")],
  ["Request::http1_data", "Response::httpdata"])

p("C31", "HTTP/2 padding and priority fields never leak into the content",
  "A DATA, HEADERS or PUSH_PROMISE frame sent with any padding, with other known flags that have no meaning for its type or with the reserved bit of the promised stream set, and a HEADERS frame sent with any priority field, parses to the same content (payload, pseudo-header values, fields, promised stream) as the frame without them, and re-encoding the parsed frame yields a well-formed frame with that content.",
  ["inputs"], "all pad lengths, priority values and contents",
  "no test uses a padded or prioritised frame",
  ["src/http/http2/frame/frame.rs", "src/http/http2/frame/data.rs", "src/http/http2/frame/headers.rs"],
  [("Frame::trim_padding", "src/http/http2/frame/frame.rs"), ("Headers::parse", "src/http/http2/frame/headers.rs")],
  ["Frame::parse", "Frame::encode"])

p("C32", "HTTP/2 header frames convert to the request or response they describe",
  "Converting a received HEADERS frame to a request yields the method, the URL made of scheme, authority and path, and every regular header; converting it to a response yields the status, every regular header and, when it has one, the method as a :method header. "
  "A request without an authority, or whose non-empty path does not start with a slash or whose authority contains a slash or question mark, is refused, so that the path can never change the host; sending on the scheme, authority and path taken from a URL gives a request for that same URL.",
  ["inputs"], "all pseudo-header values and header lists",
  "tests convert one fixed block",
  ["src/http/http2/frame/headers.rs", "src/http/request.rs", "src/http/response.rs"],
  [("Headers::into_request, into_response, Parts::build_url, Parts::request", "src/http/http2/frame/headers.rs")],
  ["Headers::into_request", "Headers::into_response", "frame parts"])

p("C33", "Host, framing and connection facts come from the right header only",
  "The host, referer, user agent, cookie, body length, keep-alive, chunked and upgrade answers of a message depend only on the header each names (matched ignoring case), are unaffected by every other header and by the order of headers, and a request's host and port are those of its absolute URL or CONNECT target, else of its Host header with port 80 when it names none. "
  "Without a Host header the host is the authority pseudo-header without its port. Octets of a host, referer, user agent or cookie that are no UTF-8 show as replacement characters.",
  ["inputs"], "all header lists containing relevant, similar-looking and irrelevant headers in any order",
  "tests set one header at a time",
  ["src/http/header.rs", "src/http/request.rs"],
  [("HeaderMap::get_host, get_body_len, is_keep_alive, is_chunked, get_upgrade_protocol", "src/http/header.rs"), ("Request::parse_connect_by_host", "src/http/request.rs")],
  ["HeaderMap accessors", "Request::url / get_connect_url / get_host"])

p("C35", "Header names keep their bytes and standard names their registered spelling",
  "Every standard header name constant has exactly its registered spelling, whatever way a name is made (bytes, static or owned text) it reads back with the text it was given ignoring letter case (exactly that text when it is not a standard name), encodes to that text with that length, is recognised as a pseudo-header if and only if it starts with ':', and equals a standard constant if and only if it is spelled like it ignoring case.",
  ["inputs"], "all constants in several letter cases and all names near or far from them",
  "tests compare two or three names",
  ["src/http/name.rs"],
  [("HeaderName constants, from_bytes, TryFrom", "src/http/name.rs")],
  ["HeaderName public API"])

p("C34", "Builders produce exactly the message that was asked for",
  "After any sequence of request or response builder calls (method, URL, version, status, headers, header maps, direct header edits, extensions, HTTP/2 upgrade), the built message has the last method, URL, version and status set (defaults GET, '/', HTTP/1.1, 200), exactly the headers set in order, the given body, and a User-Agent or Server header added only when none was set; setting a URL with a host sets the Host header to its host and port. "
  "One refused component makes every later step and the build fail, whatever follows it, and a request builder made from a request has that request's method, version and URL. A method given to a response builder is carried as its :method header.",
  ["histories"], "all sequences of builder calls with legal and illegal arguments",
  "tests build a few fixed messages",
  ["src/http/request.rs", "src/http/response.rs"],
  [("request::Builder", "src/http/request.rs"), ("response::Builder", "src/http/response.rs")],
  ["Request::builder", "Response::builder"])

p("C36", "Changing one part of a message keeps every other part",
  "Any sequence of setters, body replacements and conversions of a request or response (into another body, mapping, into binary, taking apart and putting together, cloning with a replaced body) changes exactly the part it names: method, URL, version, status, headers, extensions, body and completeness are otherwise the ones before, the old body is handed back where the operation promises it, and a body converted to binary has the bytes it would have been sent as. (Setting a URL with a host adds a Host header when there is none; a clone keeps, of the extensions, at least the shared header compression state.)",
  ["histories"], "all sequences of setters and conversions on built and on parsed messages",
  "tests convert one message each",
  ["src/http/request.rs", "src/http/response.rs"],
  [("Request::into, into_type, replace_clone, set_*", "src/http/request.rs"), ("Response::map, into_binary, into_parts, from_parts, replace_*", "src/http/response.rs")],
  ["Request and Response public API"])

p("C37", "URLs are assembled, merged and summarised component by component",
  "Building a URL from any sequence of component settings gives exactly the last value of each component and defaults elsewhere, and a refused scheme makes the build fail; merging another URL takes over exactly the components the other one sets and keeps the rest. The authority of any URL is its host followed by its port unless the port is the scheme's default for http or https or there is no scheme, and its connection address is host and port, present exactly when both are.",
  ["histories", "inputs"], "all sequences of builder calls, all pairs of URLs",
  "no test merges URLs",
  ["src/url/url.rs", "src/url/builder.rs"],
  [("url::Builder", "src/url/builder.rs"), ("Url::merge, get_authority, get_connect_url", "src/url/url.rs")],
  ["Url::builder", "Url::merge", "Url::get_authority", "Url::get_connect_url"])

p("C38", "HTTP/2 frames report the stream, flags and kind they arrived with",
  "Every HTTP/2 frame that is parsed reports the stream, flags and kind of its frame header, in its display name, through its variant and, apart from the stream of PRIORITY and the flags of the control frames, through the frame itself: SETTINGS, PING and GOAWAY belong to stream 0, END_STREAM is reported for DATA and HEADERS and END_HEADERS for HEADERS exactly when set; setting or clearing one flag changes only that flag, and a frame that is sent on keeps its stream. Stream identifiers order as numbers and are read as 31 bits (0 when bytes are missing) and handed out in steps of two from the client's 1 or the server's 2; the 24-, 31- and 64-bit numbers of frames are big-endian and read with exactly their octets, or as 0 when some are missing; frames queued by weight leave the queue heaviest first.",
  ["inputs", "histories"], "all frames, all flag sets, all identifiers and all queues",
  "no test asks a parsed frame for its stream or flags",
  ["src/http/http2/frame/frame.rs", "src/http/http2/frame/flag.rs", "src/http/http2/frame/mod.rs", "src/http/http2/frame/data.rs", "src/http/http2/frame/headers.rs"],
  [("Frame::stream_id, flags, is_end_stream, is_end_headers, display_name", "src/http/http2/frame/frame.rs"), ("Flag", "src/http/http2/frame/flag.rs"), ("StreamIdentifier", "src/http/http2/frame/mod.rs"), ("PriorityFrame", "src/http/http2/frame/frame.rs")],
  ["Frame accessors", "Flag", "StreamIdentifier", "PriorityFrame ordering"])

p("C39", "Only safe requests without a body may be promised",
  "Validating a request for an HTTP/2 push accepts it if and only if its method is GET or HEAD and it announces no body (Content-Length absent or zero, so that a negative or non-zero one is refused), whatever other headers, path and version it has.",
  ["inputs"], "all requests over methods, content lengths and other headers",
  "nothing tests the validation; it was inverted at the base commit",
  ["src/http/http2/frame/headers.rs"],
  [("PushPromise::validate_request", "src/http/http2/frame/headers.rs")],
  ["PushPromise::validate_request"])

p("C40", "Byte classes, hexadecimal helpers and byte searches mean what they say",
  "For every byte the letter, digit and hexadecimal-digit classifiers answer as defined, the URI class holds every character of RFC 3986 and no control, space, angle bracket, DEL or non-ASCII byte, a hexadecimal digit converts to its value and back, and the parsers accept exactly the bytes of the status-text class in a reason phrase and none outside the token class in a request target; hexadecimal text, in either case and with spaces anywhere, decodes to its bytes; comparing two byte strings exactly or ignoring ASCII case, and searching one in the other, agree with the definition; skipping a line break consumes exactly one CRLF or LF, reports missing bytes as incomplete and anything else as an error.",
  ["inputs"], "all bytes and all pairs of byte strings",
  "the helpers are only tested indirectly",
  ["src/helper.rs", "src/http/value.rs", "src/http/header.rs"],
  [("Helper::is_*, convert_hex, to_hex, hex_to_vec, eq_bytes, contains_bytes, skip_new_line", "src/helper.rs"), ("HeaderValue::contains", "src/http/value.rs")],
  ["Helper", "HeaderValue::contains", "HeaderMap::is_contains, is_equal"])

p("C41", "A printed message is the message that is sent",
  "The text a request or response prints as is exactly the bytes it serialises to, for every method, URL, version, registered status, header list with UTF-8 values and text body; a response with an unregistered status prints its number.",
  ["inputs"], "all messages with UTF-8 content",
  "one test prints one request",
  ["src/http/request.rs", "src/http/response.rs", "src/http/header.rs", "src/http/status.rs"],
  [("Display for Request, Response, HeaderMap, StatusCode, Method, Version", "src/http"), ("http1_data, httpdata", "src/http/request.rs, src/http/response.rs")],
  ["Request::to_string", "Response::to_string", "http1_data", "httpdata"])

p("C42", "HPACK output stays compressed",
  "Over any history of fields sent with one HPACK encoder, a field that is a static table entry takes one octet; a field with any other name that is still in the dynamic table takes only its index; such a field is in the table after it was sent if it fits in it; a field whose name has a valueless static entry does not spell its name; and no field takes more than its literal form with Huffman-coded name and value. Letter case of the name makes no difference.",
  ["inputs", "histories"], "all field histories and table sizes",
  "tests compare a handful of encoded blocks, none with eviction or a full table",
  ["src/http/http2/hpack/encoder.rs", "src/http/http2/hpack/header_index.rs"],
  [("Encoder::encode_header_into", "src/http/http2/hpack/encoder.rs"), ("HeaderIndex::find_header", "src/http/http2/hpack/header_index.rs")],
  ["Encoder::encode_header_into, encode"])

p("C43", "A stream of HTTP/1 messages comes apart into exactly its messages",
  "When requests, or responses, with no body, a Content-Length body or a chunked body are serialised one behind the other on one connection, a reader that advances by the consumed lengths, body lengths and chunk bounds the library reports finds exactly those messages, in order, each with its own start line, headers and body and nothing of its neighbours, and ends at the last octet. However the octets arrive, the head or chunk being read is reported as incomplete until its last octet is there and read at once then, whether or not the message object is reused; empty lines before a message are ignored.",
  ["inputs", "histories", "schedules"], "all message sequences, body kinds and ways the octets can arrive",
  "tests parse one message from one complete buffer; state carried from one message to the next and every split point need generated streams",
  ["src/http/request.rs", "src/http/response.rs", "src/helper.rs", "src/http/header.rs"],
  [("parse_buffer, encode_header, http1_data, httpdata", "src/http/request.rs, src/http/response.rs"), ("Helper::parse_chunk_data, encode_chunk_data", "src/helper.rs"), ("HeaderMap::get_body_len, is_chunked", "src/http/header.rs")],
  ["Request::parse/parse_buffer/http1_data/encode_header", "Response::parse/parse_buffer/httpdata/encode_header", "get_body_len", "is_chunked", "Helper::parse_chunk_data"],
  state=[("position in the stream", "the octet after the last part read", "the caller")])

p("C44", "An HTTP/2 connection reads back frame by frame",
  "Any sequence of DATA, HEADERS, PUSH_PROMISE, SETTINGS, PING, RST_STREAM, WINDOW_UPDATE and GOAWAY frames on any streams, encoded one behind the other into one buffer with one HPACK encoder and under changing frame-size limits, is read back from that buffer with one decoder, CONTINUATION frames joined to their header block, as the same sequence with the same contents, ending at the last octet; HPACK table sizes changed on both sides between frames, and refused frames without header blocks between others, do not disturb the frames that follow.",
  ["inputs", "histories"], "all frame sequences, interleavings of streams, limits and table sizes",
  "tests decode one frame with a fresh decoder; shared compression state and frame boundaries need whole connections",
  ["src/http/http2/frame", "src/http/http2/hpack"],
  [("Frame::encode, Frame::parse, FrameHeader::parse", "src/http/http2/frame/frame.rs"), ("Headers, PushPromise and Data encode", "src/http/http2/frame"), ("Encoder, Decoder, HeaderIndex", "src/http/http2/hpack")],
  ["Frame::encode", "FrameHeader::parse", "Frame::parse"],
  state=[("dynamic tables", "of the one encoder and the one decoder", "src/http/http2/hpack/header_index.rs")])

p("C45", "A WebSocket conversation comes apart into exactly its messages",
  "When text, binary, ping, pong and close messages, data messages cut into any fragments with control frames between them, are written one behind the other with any masking keys, a reader that takes frames off the stream and joins the fragments of each message finds exactly those messages in order. However the octets arrive, a frame is refused until its last octet is there and read at once then, consuming exactly its own octets.",
  ["inputs", "histories", "schedules"], "all message sequences, fragmentations, interleaved control frames, keys and ways the octets can arrive",
  "tests read single frames; boundaries between frames, per-frame keys and reassembly across control frames need generated conversations",
  ["src/ws"],
  [("DataFrameable::write_to", "src/ws/dataframe.rs"), ("DataFrame::read_dataframe", "src/ws/dataframe.rs"), ("OwnedMessage::from_dataframes", "src/ws/message.rs")],
  ["OwnedMessage/Message/DataFrame::write_to", "DataFrame::read_dataframe, read_dataframe_with_limit", "OwnedMessage::from_dataframes"],
  state=[("open fragments", "data frames of a message not yet finished", "the caller")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
