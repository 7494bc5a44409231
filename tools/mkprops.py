#!/usr/bin/env python3
# One-off generator for properties.jsonl (kept so that the wording lives in one readable place).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
H1="src/http1/parser.rs"; H2="src/http2/parser.rs"; FSM="src/fsm.rs"; COL="src/collect.rs"; BYTE="src/byte.rs"
p("C01","HTTP/1 head parsing never panics, over-reads or hangs",
 "Whatever bytes arrive, however they are cut into calls (empty pieces included) and whichever callbacks return false, parsing an HTTP/1 request or response head (from a new parser or one initialised for head parsing) returns a success or an error: it never panics, never overflows an integer, never reads a byte outside the slice it was given, and always terminates having consumed no more than that slice.",
 ["inputs","histories"],"every byte sequence, every fragmentation of it, every pattern of callback answers",
 "The tests feed a few dozen fixed heads, whole or byte by byte; bytes such as 0xFF after a header, empty slices and cuts inside a keyword are outside what they try.",
 [H1,COL,BYTE,FSM],[("unchecked look-ahead guarded by availability tests","detect1, request_http1, first_header_name, header_cr1/2"),("byte class tables","src/byte.rs")],["http1::Parser::new/init_head/resume"])
p("C02","HTTP/1 body parsing never panics, over-reads or hangs",
 "Whatever bytes arrive, however they are cut into calls and whichever callbacks return false, parsing a chunked, multipart (boundary set) or URL-encoded body returns a success or an error: it never panics, never overflows an integer, never reads outside the slice it was given, and always terminates having consumed no more than that slice.",
 ["inputs","histories"],"every byte sequence, fragmentation, boundary, content length, declared length and pattern of callback answers",
 "Tests use short well-formed bodies; length arithmetic at the extremes, every cut inside a boundary and every non-ASCII byte are not tried.",
 [H1,COL,BYTE],[("remaining-length counters","chunk_data, multipart_data_by_length, resume"),("boundary prefix comparison","multipart_boundary")],["http1::Parser::init_chunked/init_multipart/init_url_encoded/set_boundary/set_length/resume"])
p("C03","HTTP/2 frame parsing never panics, over-reads or hangs",
 "Whatever bytes arrive, however they are cut into calls and whichever callbacks return false, HTTP/2 frame parsing returns a success or an error: it never panics, never underflows its remaining-length arithmetic (for example when a pad length or a fixed part exceeds the frame's payload length), never reads outside the slice, and always terminates having consumed no more than that slice.",
 ["inputs","histories"],"every byte sequence, all 2^24 payload lengths, all pad lengths, every fragmentation, every pattern of callback answers",
 "Tests use a handful of payload lengths that are always large enough for the fields that follow.",
 [H2],[("payload/pad counters packed in one word","dec_payload_length!, actual_length!, parse_payload_data!")],["http2::Parser::new/resume"])
p("C04","Decoding utilities never panic, over-read or loop forever",
 "For every input, URL decoding returns a string or an error, and the query-string and header-field iterators yield a finite number of items (at most one per input byte) and then end, staying ended when asked again - after an error too; none of them panics or reads outside the input, and each reports at most one error.",
 ["inputs"],"every byte sequence, delimiter and normalisation setting",
 "Tests iterate a few literal strings and stop at the first None.",
 ["src/util/decode.rs","src/util/query.rs","src/util/field.rs",COL,BYTE],[("end-of-stream expressions of the collect macros","src/collect.rs"),("jump to the end on error","submit_error!")],["util::decode","util::QueryIterator","util::FieldIterator"])
p("C05","HTTP/1 head results do not depend on fragmentation",
 "Feeding the same HTTP/1 head bytes in one call or cut into any sequence of pieces produces the same callbacks in the same order with the same data (consecutive pieces of one method, URL, status, header name or header value concatenated), the same final result and the same error. When the input is rejected, the item the error lies in may have been delivered only in part.",
 ["inputs","schedules"],"every byte sequence and every way to cut it",
 "Tests compare a few literals fed whole and byte by byte; there are exponentially many cuts and the look-ahead shortcuts trigger only for particular amounts of available data.",
 [H1,FSM],[("state function saved between calls","Parser.state_function"),("look-ahead shortcuts versus per-byte states","detect1/detect2..5, request_http1, response_status_code1, first_header_name, header_cr1/2")],["http1::Parser::resume","http1::HttpHandler"])
p("C06","HTTP/1 body results do not depend on fragmentation",
 "Feeding the same chunked, multipart or URL-encoded body bytes in one call or cut into any sequence of pieces produces the same callbacks in the same order with the same data (consecutive pieces of one item concatenated), the same final result and the same kind of error. When the input is rejected, the item the error lies in may have been delivered only in part.",
 ["inputs","schedules"],"every body, every boundary and every way to cut it",
 "Tests try whole and byte-by-byte feeding of a few bodies.",
 [H1,FSM],[("boundary index, chunk length and remaining length kept across calls","bit_data, length")],["http1::Parser::resume","http1::HttpHandler"])
p("C07","HTTP/2 results do not depend on fragmentation",
 "Feeding the same HTTP/2 frame bytes in one call or cut into any sequence of pieces produces the same callbacks in the same order with the same field values (consecutive payload data pieces concatenated, the finished flag on the last one only), and the same result.",
 ["inputs","schedules"],"every frame sequence and every way to cut it",
 "Tests feed most frames whole; multi-byte fields have a whole-word path and a separate per-byte path, and only some cuts exercise the latter.",
 [H2],[("per-byte field states versus whole-word reads","frame_stream_id1..4, go_away_*, settings_*, priority_*, ...")],["http2::Parser::resume","http2::HttpHandler"])
p("C08","Request lines are reported exactly as sent",
 "A request line METHOD SP URL SP HTTP/major.minor CRLF is accepted exactly when METHOD is one or more of A-Z, URL is one or more visible 7-bit bytes, and major and minor are decimal numbers of at most three digits (after optional CR, LF, TAB and SP when initialised for head parsing); the callbacks then deliver exactly that method, URL, major and minor, followed by the end-of-initial-line callback. Any other line fails at its first offending byte with the error for the part it belongs to (method, URL, version or CRLF), carrying that byte.",
 ["inputs"],"every byte sequence, including every known method and version handled by a shortcut",
 "Tests check a list of literal methods and versions plus loops over single bytes at one position.",
 [H1],[("method and version shortcuts must agree with the per-byte states","detect1, request_http1"),("version digits accumulated in 14-bit fields","set_lower14!/set_upper14!")],["on_method","on_url","on_version","on_initial_finished","ParserError"])
p("C09","Status lines are reported exactly as sent",
 "A status line HTTP/major.minor SP code SP reason CRLF is accepted exactly when major and minor are decimal numbers of at most three digits, code is exactly three digits and reason is one or more bytes other than control bytes; the callbacks then deliver exactly that major, minor, code and reason, followed by the end-of-initial-line callback. Any other line beginning with HTTP/ fails at its first offending byte with the error for the part it belongs to (version, status code, status or CRLF), carrying that byte.",
 ["inputs"],"every byte sequence, including versions handled by a shortcut",
 "Tests check literal status lines and loops over single bytes at one position.",
 [H1],[("version shortcut and per-byte states","detect1, response_version_*"),("code accumulation","response_status_code1..3")],["on_version","on_status_code","on_status","on_initial_finished","ParserError"])
p("C10","Header names and values are reported exactly",
 "For every header line with a non-empty value, the name callback delivers exactly the bytes before the colon with A-Z lower-cased (identically whether or not the name is one the parser knows), and the value callback delivers exactly the bytes after the colon with leading spaces and tabs removed, quoted strings verbatim, and each fold's CRLF plus one space or tab removed; the empty line ends the head with exactly one end-of-headers callback and nothing after it is consumed. A byte that may not appear in a name (non-token) or value (a control byte other than TAB, DEL, a backslash not followed by a byte from SP to z, or - for its first byte - anything but a visible 7-bit byte) fails at that byte with the name, value or CRLF error carrying it.",
 ["inputs"],"every header block: every byte at every position, every known header name and its near misses",
 "Tests use a few literal headers; each of the ~25 known names has its own shortcut that a single literal test cannot distinguish from near misses.",
 [H1,BYTE,COL],[("known-name shortcut","first_header_name"),("lower-casing states","upper_header_name/lower_header_name"),("value, quoted, escaped and fold states","header_value, header_quoted_value, header_escaped_value, check_header_name")],["on_header_name","on_header_value","on_headers_finished","ParserError"])
p("C11","Chunked bodies are decoded exactly",
 "For a chunked body, each chunk reports exactly the length given by its one to eight hexadecimal digits (without leading zeros), then its extensions (names lower-cased, quotes and backslashes of values removed), then exactly that many data bytes unaltered; a chunk of length zero, with or without extensions, ends the data, the trailer lines are reported as headers, and the body-finished callback fires exactly once with nothing after the final CRLF consumed. Anything else in the framing (a second digit after a leading zero included) fails at the first offending byte.",
 ["inputs","histories"],"every chunk length up to 0xFFFFFFFF, every byte of data, extensions and trailers, every number of chunks",
 "Tests cover a few lengths and single chunks; the length arithmetic over 32 bits and the interplay of zero chunk and extensions are not covered.",
 [H1],[("hex length accumulation","chunk_length1..8"),("remaining length","chunk_data"),("end of extensions","chunk_extensions_finished, chunk_length_lf")],["on_chunk_*","on_header_*","on_headers_finished","on_body_finished"])
p("C12","Multipart bodies are split exactly at their boundaries",
 "For a multipart body whose boundary B has 1 to 70 bytes, each part's headers are reported as headers and each part's data is delivered byte for byte: it ends exactly at the first CRLF--B after it when no content length is given (whatever CR, LF, hyphen or partial-boundary bytes the data contains), and after exactly the given number of bytes when the handler gives a content length. Every part is announced by exactly one begin callback, the terminator CRLF--B-- produces exactly one body-finished callback, and anything else where a boundary is required is a boundary error (reported at or before the first differing byte).",
 ["inputs","histories"],"every data byte sequence, boundary and content length",
 "Tests use data without CR LF or hyphen runs right before the boundary.",
 [H1],[("boundary matcher with its own back-tracking","multipart_data_by_byte*, multipart_hyphen1/2, multipart_boundary")],["on_multipart_begin","on_header_*","on_multipart_data","on_body_finished"])
p("C13","URL-encoded bodies are decoded exactly within their length",
 "For a URL-encoded body of declared length N, exactly the first N bytes are processed and the body-finished callback fires once they have been; pairs separated by & or ; are each announced by one begin callback, and the name and value callbacks deliver exactly the decoded bytes (+ as space, %XX as that byte, other visible 7-bit bytes as themselves). Any other byte, or a bad hex digit, fails at that byte with the name or value error carrying it.",
 ["inputs","histories"],"every body, every declared length, every amount of surplus data after it",
 "Tests decode a few literals with matching lengths.",
 [H1],[("length limiting in resume","Parser::resume"),("hex states","url_encoded_*_hex1/2")],["on_url_encoded_begin","on_url_encoded_name","on_url_encoded_value","on_body_finished"])
p("C14","Pausing from an HTTP/1 callback loses and repeats nothing",
 "When any HTTP/1 callback returns false, the call returns immediately with a callback success whose length is the number of bytes consumed, and calling again with the remaining bytes continues so that the complete sequence of callbacks and data, the final result and any error are the same as if no callback had returned false (when the input is rejected, the item the error lies in may have been delivered only in part).",
 ["inputs","schedules"],"every input in every mode, every callback occurrence and combination of occurrences that returns false",
 "Tests check one literal per callback.",
 [H1,FSM],[("state is set before each callback","callback!, callback_transition!, callback_ignore_transition!")],["Success::Callback","http1::HttpHandler"])
p("C15","HTTP/1 consumption counts are exact",
 "Every successful HTTP/1 call reports how many bytes of its slice it consumed: all of them when more data is expected, and otherwise exactly up to the byte that completed the message or the item whose callback returned false. The parser's total byte count is at all times the sum of the bytes consumed by all calls since it was created, and on an error it includes the offending byte and nothing after it (for a mismatching boundary, at most that byte).",
 ["inputs","histories"],"every input in every mode, every fragmentation and pause point",
 "Tests assert counts for single-call literals.",
 [H1,FSM],[("stream index and byte_count","Parser::parse, Parser::resume")],["Success","Parser::byte_count"])
p("C16","Errors and completion are final until re-initialisation",
 "After an HTTP/1 or HTTP/2 parser has returned an error, every further call returns the dead-parser error, consumes nothing and makes no callback; after an HTTP/1 parser has finished, every further call reports finished, consumes nothing and makes no callback. Resetting or re-initialising the parser from any point, for any mode, makes it handle what follows exactly like a newly created parser initialised for that mode.",
 ["inputs","histories"],"every history of calls leading to an error, a finish or an arbitrary intermediate point, followed by any input",
 "Tests do not resume after errors and reset only from the initial state.",
 [H1,H2],[("dead and finished states","dead, finished, body_finished"),("reset","Parser::reset, init_*")],["resume","state","reset","init_*"])
p("C17","HTTP/2 frame headers are decoded exactly",
 "For every frame, the frame-format callback reports exactly the 24-bit payload length, the type byte, the flags byte and the 31-bit stream identifier (reserved bit cleared) sent in its nine header bytes, once, before anything else of that frame.",
 ["inputs","histories"],"all 2^72 frame headers, in any position of a frame sequence",
 "Tests check a few headers.",
 [H2],[("bit packing of length, type, flags, stream id","frame_length1.., frame_type, frame_flags, frame_stream_id1..4, frame_format_end")],["on_frame_format"])
p("C18","HTTP/2 payload, padding and frame boundaries are exact",
 "For DATA, HEADERS, PUSH_PROMISE, CONTINUATION, PING, GOAWAY and unknown frames of any payload length L, exactly L payload bytes are consumed: the data callbacks together deliver exactly the payload without its pad-length byte, fixed fields and padding, in order, with the finished flag set on the last and only the last; the padding is skipped, and the next frame starts at the following byte. A frame whose payload is too short for its pad length, fixed fields and padding is rejected with an error by the time these have been read, instead of being misread.",
 ["inputs","histories"],"all payload lengths up to 2^24-1, all pad lengths, all data, all fragmentations, sequences of frames",
 "Tests use payloads of a few dozen bytes and single frames.",
 [H2],[("remaining payload and pad counters","parse_payload_data!, dec_payload_length!, frame_padding")],["on_data","on_headers_fragment","on_ping","on_go_away_debug_data","on_unsupported"])
p("C19","HTTP/2 frame fields are decoded exactly",
 "For HEADERS with priority, PRIORITY, RST_STREAM, SETTINGS, PUSH_PROMISE, GOAWAY and WINDOW_UPDATE frames, the frame's callback reports exactly the big-endian values sent (exclusive bit, 31-bit stream identifier or window increment with the reserved bit cleared, weight byte, error code, setting identifier and value), every setting of a SETTINGS frame is reported once in order, and the frame that follows a frame of valid length is parsed from its first byte (a HEADERS frame that is padded but has no priority may report an all-zero priority).",
 ["inputs","histories"],"all field values; all fragmentations; sequences of frames",
 "Tests check a few values.",
 [H2],[("field states","go_away_*, headers_*, priority_*, push_promise_*, rst_stream_*, settings_*, window_update_*")],["on_headers","on_priority","on_rst_stream","on_settings","on_push_promise","on_go_away","on_window_update"])
p("C20","Pausing HTTP/2 callbacks and consumption counts are exact",
 "When any HTTP/2 callback returns false, the call returns a callback success with the number of bytes consumed so far, and continuing with the remaining bytes yields the same callbacks and data as an uninterrupted run; every call that expects more data reports its whole slice consumed, and the parser's byte count is the sum of the bytes consumed since it was created or reset (which makes it zero).",
 ["inputs","schedules"],"every frame sequence, every callback occurrence that returns false",
 "Tests check one literal per callback.",
 [H2,FSM],[("state set before each callback","exit_callback!, parse_payload_data!")],["Success","byte_count"])
p("C21","Byte classification matches the HTTP grammar for every byte",
 "For each of the 256 byte values, a token byte is a letter, a digit or one of !#$%&'*+-.^_`|~; a header value byte is TAB or any byte from space upwards except DEL and the double quote; and a quoted header value byte is a header value byte other than the backslash.",
 ["inputs"],"all 256 byte values",
 "Tests never enumerate the classification tables.",
 [BYTE],[("classification tables","HEADER_FIELDS, QUOTED_HEADER_FIELDS, TOKENS")],["byte::is_token","byte::is_header_field","byte::is_quoted_header_field"])
p("C22","HTTP/2 code points convert exactly both ways",
 "Frame types, error codes, setting identifiers and flags made from any numeric value answer with the meaning RFC 7540 assigns to it and convert back to that value (unknown frame types, error codes and settings being reported as unsupported), and each flag query is true exactly when its bit is set; a frame format made of its four parts reports those parts. An unsupported error code converts to 255.",
 ["inputs"],"all 2^8 frame types, flags and error codes, all 2^64 frame formats, all 2^16 setting identifiers and 2^32 values",
 "Tests check a few values through parsing.",
 ["src/http2/flags.rs","src/http2/frame_type.rs","src/http2/error_code.rs","src/http2/setting.rs","src/http2/frame_format.rs"],[("match tables","from_u8/as_byte, from_u32/as_u32")],["Flags","FrameType","ErrorCode","Setting"])
p("C23","URL decoding is exact",
 "URL decoding returns the input with + replaced by a space and each %XX replaced by the byte it denotes when every byte is visible 7-bit, every % is followed by two hex digits and the result is valid text; otherwise it returns the error for the first offending byte or hex sequence.",
 ["inputs"],"every byte sequence",
 "Tests decode a few literals.",
 ["src/util/decode.rs",COL],[("collect and hex macros","collect_visible_7bit!, collect_hex8!")],["util::decode","util::DecodeError"])
p("C24","Query-string iteration is exact",
 "Iterating a query string yields, in order, one (name, value) pair per field separated by & or ;, with + and %XX decoded in both names and values, an absent value for a field without =, and a present (possibly empty) value otherwise (a separator directly after another gives a field with an empty name). A malformed field - a byte that is not visible 7-bit, a bad hex sequence, or a query that begins with a separator or = - ends the iteration and reports the name or value error once with the offending byte.",
 ["inputs"],"every byte sequence",
 "Tests iterate a few literals.",
 ["src/util/query.rs",COL],[("name and value loops","QueryIterator::next")],["util::QueryIterator","util::QueryError"])
p("C25","Header-field iteration is exact",
 "Iterating a header field yields, in order, one (name, value) pair per parameter between delimiters such as ; or , (the value absent when the field ends at or right after the name's =), with spaces and tabs before names and values skipped, names lower-cased when normalisation is on, quoted values returned without their quotes and backslashes, and spaces or tabs allowed between a closing quote and the delimiter or end; a malformed parameter (a name byte that is neither a token byte nor /, a value byte that may not appear in a header value, a missing closing quote, or anything else after it) ends the iteration and reports the name or value error once with the offending byte.",
 ["inputs"],"every byte sequence, delimiter and normalisation setting",
 "Tests iterate a few literals.",
 ["src/util/field.rs",COL,BYTE],[("name, value and quoted loops","FieldIterator::next")],["util::FieldIterator","util::FieldError"])
p("C26","Text returned by the utilities is always valid UTF-8",
 "Every string returned by URL decoding, query-string iteration and header-field iteration is valid UTF-8; input whose decoded bytes are not valid UTF-8 is reported as an error instead.",
 ["inputs"],"every byte sequence, including percent-encoded and raw bytes above 0x7F",
 "Tests use ASCII only, and an invalid string is silently undefined behaviour.",
 ["src/util/decode.rs","src/util/query.rs","src/util/field.rs","src/util/mod.rs"],[("construction of the returned strings","submit!, submit_name!, submit_name_value!")],["util::decode","util::QueryIterator","util::FieldIterator"])
p("C27","Callbacks left at their defaults change nothing",
 "A handler of either protocol that leaves callbacks at their default implementations gets exactly the outcomes, errors and consumption counts of one whose callbacks all return true (and that gives no content length): no call returns a callback success.",
 ["inputs","schedules"],"every input in every mode and every fragmentation",
 "Tests use handlers that override everything, or never compare the two.",
 ["src/http1/http_handler.rs","src/http2/http_handler.rs"],[("default trait methods","HttpHandler")],["http1::HttpHandler","http2::HttpHandler","resume"])
p("C28","Errors and code points print their name and value",
 "Formatting (Display and Debug) any parser error, decoding error, frame type, error code or setting succeeds and the text contains the name of its variant and, where it carries a byte or value, that number in decimal; a success prints the number of bytes (and, in Debug, its name).",
 ["inputs"],"every variant and every value",
 "Tests never format values.",
 ["src/http1/parser_error.rs","src/http2/parser.rs","src/http2/frame_type.rs","src/http2/error_code.rs","src/http2/setting.rs","src/util/decode.rs","src/util/query.rs","src/util/field.rs",FSM],[("format methods","ParserError::format, DecodeError::format, ...")],["fmt::Display","fmt::Debug"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
