"""HTTP/1 cases: the concrete texts that bring the parser to a state or surround a symbolic window.
Writes harness/src/tables.rs; check.py imports CASES to build its job lists."""
import os
NEW, HEAD, CHUNK, MULTI, URL = range(5)
CASES = []          # (name, mode, boundary, lens, text)
GROUPS = {}         # group -> [index]
def case(group, mode, text, boundary=b"", lens=(None,)):
    if isinstance(text, str): text = text.encode("latin-1")
    if isinstance(boundary, str): boundary = boundary.encode()
    CASES.append((mode, boundary, tuple(lens), text))
    GROUPS.setdefault(group, []).append(len(CASES) - 1)
    return len(CASES) - 1
RQ = "GET / HTTP/1.1\r\n"
# --- states of the head parser (symbolic bytes are appended)
for m in (NEW, HEAD): case("rq", m, "")
for t in ["\r\n \t", "H", "HT", "HTT", "HTTP", "G", "GET ", "GET /x", "GET / ", "GET / HTTP", "GET / HTTP/", "GET / HTTP/1",
          "GET / HTTP/12", "GET / HTTP/123", "GET / HTTP/1.", "GET / HTTP/1.2", "GET / HTTP/1.23", "GET / HTTP/1.234",
          "GET / HTTP/1.1\r"]: case("rq", HEAD, t)
for t in ["HTTP/", "HTTP/1", "HTTP/12", "HTTP/123", "HTTP/1.", "HTTP/1.2", "HTTP/1.23", "HTTP/1.234", "HTTP/1.1 ", "HTTP/1.1 2",
          "HTTP/1.1 20", "HTTP/1.1 200", "HTTP/1.1 200 ", "HTTP/1.1 200 O", "HTTP/1.1 200 OK\r"]: case("rs", HEAD, t)
for t in ["", "A", "Ab", "a:", "a: ", "a: v", "a: \"", "a: \"q\\", "a: v\r", "a: v\r\n", "a: v\r\n ", "a: v\r\n\r"]:
    case("hd", HEAD, RQ + t)
case("hd", HEAD, "HTTP/1.1 200 OK\r\n")
# --- chunked
for t in ["", "5", "1234567", "12345678", "5;", "5;a", "5;a ", "5;A", "5;a=", "5;a=v", "5;a=\"", "5;a=\"\\", "5;a\r", "5\r", "5;a;", "3\r\n",
          "3\r\nabc", "3\r\nabc\r", "2\r\nab\r\n", "0", "0\r", "0\r\n", "0;a", "0;a\r", "0;a\r\n", "0\r\nA:b\r\n", "0\r\n\r"]: case("ck", CHUNK, t)
# --- multipart
for b, lens in (("", (None,)), ("B", (None,)), ("BCB", (None,)), ("B-", (None,))):
    for t in ["", "-", "--"]: case("mp0", MULTI, t, b, lens)
    for t in ["--%s", "--%s\r", "--%s-", "--%s\r\n"]: case("mp0", MULTI, t % b, b, lens)
for b in ("B", "BCB", "-B", "ab"):
    for t in ["--%s\r\n\r\n", "--%s\r\nA:b\r\n\r\nd\r", "--%s\r\n\r\n\r\n", "--%s\r\n\r\n\r\n-", "--%s\r\n\r\n\r\n--"]: case("mp1", MULTI, t % b, b)
    case("mp1", MULTI, ("--%s\r\n\r\nxy\r\n--%s" % (b, b)), b)
    case("mp1", MULTI, ("--%s\r\n\r\nxy\r\n--%s" % (b, b))[:-1], b)
    case("mp1", MULTI, ("--%s\r\n\r\nxy\r\n--%s-" % (b, b)), b)
for lens in ((0,), (1,), (2,), (3, None), (None, 2), (1, 3)):
    for t in ["--B\r\n\r\n", "--B\r\n\r\nabc"[:9 + (lens[0] or 0)], "--B\r\n\r\n" + "abc"[:lens[0] or 0] + "\r\n",
              "--B\r\n\r\n" + "abc"[:lens[0] or 0] + "\r\n--", "--B\r\n\r\n" + "abc"[:lens[0] or 0] + "\r\n--B",
              "--B\r\n\r\n" + "abc"[:lens[0] or 0] + "\r\n--B\r\n\r\n"]: case("mp2", MULTI, t, "B", lens)
for lens in ((2 ** 64 - 1,), (2 ** 63,), (2 ** 32 + 1,)):
    for t in ["--B\r\n\r\n", "--B\r\n\r\nab\r"]: case("mp2", MULTI, t, "B", lens)
# --- URL encoded
for t in ["", "a", "%", "%4", "a=", "a=b", "a=%", "a=%4", "a=b&", "a&"]: case("ue", URL, t)
# --- whole messages (the window replaces bytes of the text)
METHODS = ["GET", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "HEAD", "TRACE", "PRI", "PATCH", "HTTP", "HT", "H", "HTTPS"]
for m in METHODS: case("t.rq." + m, HEAD, m + " /a?b HTTP/1.1\r\nA:b\r\n\r\n")
for v in ["1.0", "2.0", "1.1", "0.9", "12.3", "123.456", "9.99"]: case("t.rqv", HEAD, "GET / HTTP/" + v + "\r\n\r\nxxxxxxxxx")
for v in ["1.0", "2.0", "1.1", "0.9", "12.3", "123.456"]: case("t.rs", HEAD, "HTTP/" + v + " 200 OK\r\nA:b\r\n\r\nxx")
NAMES = ["Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language", "Authorization", "Host", "User-Agent", "Upgrade", "Connection",
         "Content-Type", "Content-Length", "Cookie", "Cache-Control", "Content-Security-Policy", "Location", "Last-Modified", "Pragma",
         "Set-Cookie", "Transfer-Encoding", "X-Powered-By", "X-Forwarded-For", "X-Forwarded-Host", "X-XSS-Protection", "X-WebKit-CSP",
         "WWW-Authenticate", "Date", "ETag", "X-Request-ID", "aCCEPT"]
for n in NAMES: case("t.name", HEAD, RQ + n + ": Value 1234567890 12345\r\n\r\n")
case("t.hd", HEAD, RQ + "A: b\r\n c\r\nDe-F:\t\"g\\\"h\" i\r\n\r\nJ")
case("t.hd", HEAD, RQ + "Host: x\r\nAccept:\r\n y\r\nUser-Agent: z;q=\"1,\"\r\nCookie: c\r\n\r\n")
case("t.hd", HEAD, "POST /p?q=1&r=%20 HTTP/1.1\r\nHost: example.com:80\r\nUser-Agent: Mozilla/5.0 (X; rv:1) G/2\r\nAccept: text/html,*/*;q=0.8\r\n"
     "accept-language: en\r\nCONTENT-TYPE: a/b; boundary=\"x y\"\r\nContent-Length: 12\r\nConnection: keep-alive, Upgrade\r\nX-y: 1\r\nx-y: 2\r\nCookie: a=b; c=d\r\n\r\nBODY")
case("t.hd", HEAD, "HTTP/1.1 301 Moved Permanently\r\nServer: s\r\nDate: Thu, 01 Jan 1970 00:00:00 GMT\r\nSet-Cookie: i=1; Path=/\r\nSet-Cookie: \xfcj=2\r\n"
     "Location: http://h/\r\nTransfer-Encoding: chunked\r\nW: a\r\n b\r\n\tc\r\nV:\r\n \r\n u\r\n\r\nREST")
case("t.ck", CHUNK, "b\r\n0123456789a\r\n001\r\n")
case("t.ck", CHUNK, "3\r\na\r\n\r\n1;x=y\r\n\r\r\n1\r\n\n\r\n2;n;m=\"\"\r\n0\r\r\n00000000\r\n")
case("t.ck", CHUNK, "1\r\na\r\n1\r\nb\r\n1\r\nc\r\n1\r\nd\r\n0\r\nA: b\r\n c\r\nContent-Length: 7\r\nB:\"d\"\r\n\r\n0\r\n")
case("t.ck", CHUNK, "5;A=b;c;D=\"e\\\"f\";g=h\r\n12345\r\nA\r\n0123456789\r\n0\r\nX-Y: z\r\nw: v\r\n\r\nQ")
case("t.ck", CHUNK, "1\r\nZ\r\n0;l=m\r\n\r\n")
case("t.ck", CHUNK, "0;x\r\nAbC: d\r\n\r\n")
case("t.mp", MULTI, "--AaB\r\nC: d\r\n\r\ne\r\n--Aaf\r\n-\r\ng\r\n--AaB\r\n\r\nh\r\n--AaB--i", "AaB")
case("t.mp", MULTI, "--x\r\n\r\n\r\r\n\r\n-\r\n--\r\n--x\r\n\r\n\r\n--x--", "x")
case("t.mp", MULTI, "--xyz\r\nL: 4\r\n\r\nabcd\r\n--xyz\r\n\r\n\r\n--xyz\r\nM: n\r\n\r\nop\r\n--xyz--", "xyz", (4, 0, None))
case("t.mp", MULTI, "--xyz\r\n\r\nop\r\n--xyz\r\n\r\nabcd\r\n--xyz--", "xyz", (None, 4))
WK = "----WebKitFormBoundary7MA4YWxkTrZu0gW"
case("t.mp", MULTI, "--%s\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n1\r\n--%s\r\nContent-Type: text/plain\r\n\r\n--%s\r\n\r\n--%s--" % (WK, WK[:-1], WK, WK), WK)
case("t.mp", MULTI, "--a\r\n\r\n1\r\n--a\r\n\r\n2\r\n--a\r\nb:c\r\n\r\n\r\n\r\n--a\r\n\r\n4\r\n--a--\r\n", "a")
case("t.mp", MULTI, "--aab\r\n\r\n\r\n-\r\n--a\r\n--aa\r\n--aaab\r\n--aab--", "aab")
case("t.mp", MULTI, "--xyz\r\n\r\n\r\n--xyz\r\n--xyz\r\n\r\nab\r\n--xyz\r\n\r\n\r\n--xyz\r\n\r\nq\r\n--xyz--", "xyz", (7, None, 0, 1))
case("t.ue", URL, "user=J%c3%b6rg+X&&e-mail=j%40x.y;=v;k&l==%3D%26&z=%00%fF&last=")
case("t.ue", URL, "ab+c=d+%41e&f%2b=;g&h=i%7Ej")
case("t.ue", URL, "=&;x==y=%zz")
# --- items longer than 255 bytes
L = 300
case("l.rq", HEAD, "M" * L + " /" + "u" * L + " HTTP/1.1\r\n\r\n")
case("l.rs", HEAD, "HTTP/1.1 200 " + "r" * L + "\r\n\r\n")
case("l.hd", HEAD, RQ + "n" * L + ": " + "v" * L + "\r\n\r\n")
case("l.ck", CHUNK, "12C;" + "n" * 50 + "=" + "v" * 60 + "\r\n" + "d" * L + "\r\n0\r\n" + "t" * 50 + ":u\r\n\r\n")
case("l.mp", MULTI, "--" + "b" * 270 + "\r\n\r\nxx\r\n--" + "b" * 270 + "--", "b" * 270)
case("l.ue", URL, "n" * L + "=" + "v" * L)
case("l.hd", HEAD, RQ + "".join("h%d: v%d\r\n" % (k, k) for k in range(40)) + "\r\n")
case("l.ck", CHUNK, "".join("%x;e%d\r\n%s\r\n" % (k, k, "x" * k) for k in range(1, 20)) + "0\r\n\r\n")
case("l.mp", MULTI, "".join("--q\r\nh: %d\r\n\r\n%s\r\n" % (k, "y" * k) for k in range(20)) + "--q--", "q")
case("l.ue", URL, "&".join("k%d=%%4%dv" % (k, k % 10) for k in range(45)))
# --- second phases of the re-initialisation check
SECOND = [case("s", HEAD, "\r\nGET / HTTP/1.1\r\nA:b\r\n\r\n"), case("s", HEAD, "HTTP/1.1 200 OK\r\n\r\n"), case("s", CHUNK, "2;a=b\r\nxy\r\n0\r\n\r\n"),
          case("s", MULTI, "--B\r\n\r\nx\r\n-\r\n--B--", "B"), case("s", URL, "a%20=b&c")]

# --- HTTP/2 texts
TEXTS2 = []
G2 = {}
def text2(group, t): TEXTS2.append(bytes(t)); G2.setdefault(group, []).append(len(TEXTS2) - 1); return len(TEXTS2) - 1
def fr(t, flags, payload, sid=0x81020304, n=None):
    n = len(payload) if n is None else n
    return bytes([n >> 16 & 255, n >> 8 & 255, n & 255, t, flags]) + sid.to_bytes(4, "big") + bytes(payload)
D_, H_, PR, RS, SE, PP, PI, GO, WU, CO = range(10)
text2("start", b"")
# a frame header, then the window is its payload
for t, fl in ((D_, 0), (D_, 8), (H_, 0), (H_, 8), (H_, 0x20), (H_, 0x28), (PP, 0), (PP, 8), (PI, 0), (GO, 0), (CO, 0), (0x0b, 0), (0x0b, 8), (0xff, 0)):
    for n in (0, 1, 5, 6, 8, 9, 10): text2("pay", fr(t, fl, b"", n=n))
for t, n in ((PR, 5), (RS, 4), (SE, 6), (SE, 0), (WU, 4)): text2("pay", fr(t, 0, b"", n=n))
T2A = fr(SE, 0, b"\0\3\0\0\0\x64") + fr(H_, 0x28, b"\2\x80\0\0\5\x10" + b"abc" + b"\0\0") + fr(CO, 4, b"xy") + fr(D_, 8, b"\3" + b"hello" + b"\1\2\3") + fr(WU, 0, b"\x80\0\1\2")
T2B = fr(PP, 8, b"\1\x80\0\0\2" + b"frag" + b"\0") + fr(RS, 0, b"\0\0\0\7") + fr(GO, 0, b"\x80\0\0\7\0\0\0\2dbg") + fr(PI, 1, b"12345678") + fr(PR, 0, b"\x80\0\0\1\xff") + fr(0x42, 8, b"\2uvw\0\0") + fr(SE, 1, b"")
T2C = fr(D_, 0, b"") + fr(H_, 8, b"\1h\0") + fr(H_, 0, b"k") + fr(GO, 0, b"\0\0\0\1\0\0\0\0") + fr(D_, 8, b"\2\0\0") + fr(PP, 0, b"\0\0\0\3") + fr(0x0a, 0, b"z") + fr(D_, 1, b"!")
for t in (T2A, T2B, T2C): text2("tpl", t)
text2("long", fr(D_, 8, b"\xff" + b"d" * 300 + b"\0" * 255) + fr(PI, 0, b"12345678"))
text2("long", fr(H_, 0, b"h" * 300) + fr(CO, 0, b"c" * 260) + fr(D_, 0, b"e"))
SECOND2 = [text2("second", T2A[15:]), text2("second", T2B), text2("second", T2C)]
for t in (b"", b"a", b"%4", b"%C3", b"%E2%82", b"%f0%9f%98", b"x%41"): text2("u.dec", t)
for t in (b"Foo+B%61r/~!%20%e2%82%ac%F0%9F%98%80", b"%41%42%43%c3%A9z"): text2("u.dect", t)
for t in (b"", b"a", b"a=", b"a=b", b"ab&", b"a=1;", b"n%4", b"n=%C", b"n%C3", b"n=%E2%82", b"a=b&&", b"a=b=c"): text2("u.qry", t)
for t in (b"name=va+lue&k%61;x=%41%c3%a9&&y=;z==q&last", b"f%E2%82%AC=1&g=%F0%9F%98%80"): text2("u.qryt", t)
for t in (b"", b"a", b"a=", b"a=b", b'a="', b'a="b', b'a="b\\', b'a="b"', b'a="b" ', b"a ", b" \t", b"a;", b"a= ", b"Ab=c;D", b"a=\xc3", b'a="\xe2\x82', b"text/"): text2("u.fld", t)
for t in (b'form-data; Name="f\\"\\\\x" ; FILE= v1;q;  z="";b=\xc3\xa9', b'a=1, B/c="2,3" ,\tD=4&e;', b'max="1;2" , k; j=5'): text2("u.fldt", t)

text2("u.decl", b"ab%63+" * 50)
text2("u.qryl", b"&".join(b"k%d=%%4%d+v" % (k, k % 10) for k in range(30)))
text2("u.qryl", b"n" * 260 + b"=" + b"v" * 260)
text2("u.fldl", b"; ".join(b'N%d="%d"; m%d=v' % (k, k, k) for k in range(20)))
text2("u.fldl", b"N" * 260 + b"=\"" + b"v" * 130 + b"\\\\" + b"w" * 130 + b"\"; x=" + b"y" * 260)

# --- texts with a part that is repeated many times: (before, part, after)
UNIT1, UNIT2 = {}, {}
def many(group, mode, a, u, b, boundary=b"", lens=(None,)): UNIT1[case(group, mode, a + u + b, boundary, lens)] = (len(a), len(a) + len(u))
RQ1, RS1 = RQ, "HTTP/1.1 200 OK\r\n"
for a, u, b in (("", "\r\n", "GET / HTTP/1.1\r\n\r\n"), ("", "M", " / HTTP/1.1\r\n\r\n"), ("GET /", "u%", " HTTP/1.1\r\n\r\n"), ("GET ", " ", "/ HTTP/1.1\r\n\r\n")): many("m.rq", HEAD, a, u, b)
for a, u, b in (("HTTP/1.1 200 ", "O ", "\r\n\r\n"), ("HTTP/1.1 ", " ", "200 K\r\n\r\n")): many("m.rs", HEAD, a, u, b)
for a, u, b in ((RQ, "A: b\r\n", "C:d\r\n\r\nx"), (RQ, "n", ": v\r\n\r\n"), (RS1 + "N:", " ", "v\r\n\r\n"), (RQ + "N: ", "v", "\r\n w\r\n\r\n"), (RQ + "N: v", "\r\n w", "\r\nb:\r\n\r\n"), (RQ + "N: \"", "q\\\"", "\"\r\n\r\n"),
                (RQ, "Cookie: a=b\r\nHost: c\r\nx-y:\tz\r\n", "\r\n")): many("m.hd", HEAD, a, u, b)
for a, u, b in (("", "1\r\nx\r\n", "0\r\n\r\n"), ("", "2;a=b\r\n\r\n\r\n", "0\r\nT:u\r\n\r\n"), ("3;", "n", "=v\r\nabc\r\n0\r\n\r\n"), ("3;n=", "v", "\r\nabc\r\n0\r\n\r\n"), ("3;n=\"", "q;", "\"\r\nabc\r\n0\r\n\r\n"),
                ("3", ";a=b", "\r\nabc\r\n0\r\n\r\n"), ("3", ";a", "\r\nabc\r\n0;b\r\n\r\n"), ("0\r\n", "T:u\r\n", "V:w\r\n\r\nx"), ("A\r\n0123456789\r\n", "1\r\n\r\r\n", "0\r\n\r\n")): many("m.ck", CHUNK, a, u, b)
for a, u, b in (("--B\r\n", "\r\nd\r\n--B\r\n", "\r\ne\r\n--B--"), ("--B\r\n\r\n", "d", "\r\n--B--"), ("--B\r\n\r\n", "\r\n--", "\r\n--B--"), ("--B\r\n\r\n", "\r", "\r\n--B--"), ("--B\r\n", "H:v\r\n", "\r\ne\r\n--B--")): many("m.mp", MULTI, a, u, b, "B")
many("m.mp", MULTI, "--B\r\n\r\ne\r\n", "--B\r\n\r\nd\r\n", "--B--", "B", (1,))
many("m.mp", MULTI, "--BCB\r\n\r\n", "\r\n--BC", "\r\n--BCB--", "BCB")
for a, u, b in (("", "a=b&", "c=d"), ("", "n", "=v"), ("n=", "v", "&x"), ("n=", "%41", "&x"), ("", "+", "=&%20=c"), ("", "&a", "=")): many("m.ue", URL, a, u, b)
def many2(group, a, u, b): UNIT2[text2(group, a + u + b)] = (len(a), len(a) + len(u))
END2 = fr(H_, 0x28, b"\2\x80\0\0\5\x10" + b"abc" + b"\0\0") + fr(RS, 0, b"\0\0\0\7")
for u in (fr(D_, 8, b"\1ab\0"), fr(D_, 1, b""), fr(PI, 0, b"12345678") + fr(SE, 1, b""), fr(SE, 0, b"\0\3\0\0\0\x64") + fr(WU, 0, b"\x80\0\1\2"), fr(H_, 0x28, b"\1\x80\0\0\5\x10h\0") + fr(CO, 4, b"xy") + fr(PP, 0, b"\0\0\0\3f"), fr(0x42, 8, b"\2uvw\0\0") + fr(PR, 0, b"\x80\0\0\1\xff"), fr(GO, 0, b"\0\0\0\1\0\0\0\0dbg")): many2("m.2", fr(SE, 1, b""), u, END2)
for a, u, b in ((b"", b"a", b"%42"), (b"x", b"%41+", b"%c3%a9"), (b"", b"%e2%82%ac", b"!")): many2("m.dec", a, u, b)
for a, u, b in ((b"", b"a=b&", b"c=d"), (b"", b"n", b"=v"), (b"n=", b"v%41", b"&x"), (b"", b"&", b"x=y")): many2("m.qry", a, u, b)
for a, u, b in ((b"", b"a=b;", b"c=d"), (b"", b"N", b"=v"), (b"n=", b"v", b";x"), (b"n=\"", b"v\\\"", b"\";x"), (b"a", b" ", b";x")): many2("m.fld", a, u, b)

def lit(b): return 'b"' + "".join("\\x%02x" % c for c in b) + '"'
def main():
    out = ["// written by tools/tables.py", "use crate::h1::Ctx;", "pub static CASES: [Ctx; %d] = [" % len(CASES)]
    for m, b, lens, t in CASES:
        ls = ", ".join("None" if l is None else "Some(%d)" % l for l in lens)
        out.append("    Ctx { mode: %d, boundary: %s, lens: &[%s], text: %s }," % (m, lit(b), ls, lit(t)))
    out.append("];")
    out.append("pub static TEXTS2: [&[u8]; %d] = [" % len(TEXTS2))
    out += ["    %s," % lit(t) for t in TEXTS2]
    out.append("];\n")
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "tables.rs")
    s = "\n".join(out)
    if not os.path.exists(p) or open(p).read() != s: open(p, "w").write(s)
if __name__ == "__main__":
    main()
    print(len(CASES), {k: len(v) for k, v in GROUPS.items()})
