"""Job lists: which harness runs decide which property, with which bounds."""
import tables as T
ASSUME = [
    "The LLVM IR that rustc emits (opt-level 1, debug assertions and overflow checks on, x86-64) means what the executor takes it to mean; sampled paths and every counterexample are run natively as a cross-check.",
    "z3 answers correctly; an unknown answer, a timeout or an unsupported instruction ends the check with an error, never with success.",
    "The allocator never fails.",
]
CODES = {}
# feeds
ONE, PREFIX, BYTES, CUT1, CUT2, EMPTY, CUT3 = range(7)
P_NONE, P_ONE, P_ALL, P_TWO, P_SYM = range(5)
FN = ["one", "prefix", "bytes", "cut1", "cut2", "empty", "cut3"]; PN = ["", "+pause1", "+pauseall", "+pause2", "+pausesym"]
EOS, FIN, ERR = 0, 1, 2
def h1(h, case, w, feed=ONE, pause=P_NONE, lo=-1, hi=-1, cutlo=-1, ulen=-1, extra=(), group=None, need=(), **kw):
    g = next(g for g, l in T.GROUPS.items() if case in l)
    return dict(h=h, p=[case, w, lo, hi, feed, pause, cutlo, ulen] + list(extra), label="%s/%s%d%s w%d %s%s" % (h, g, case, "" if lo < 0 else "@%d-%d" % (lo, hi), w, FN[feed], PN[pause]),
                group=group or h + "/" + g.split(".")[0], need=list(need), **kw)
def grp(*names): return [c for n in names for c in T.GROUPS[n]]
def tgrp(prefix): return [c for n, l in T.GROUPS.items() if n.startswith(prefix) for c in l]
PROPS = {}
SAFE, RES, CNT, PAUSE, FINAL, UTF = 1, 2, 4, 8, 16, 32
def pad(j): j["p"] = (j["p"] + [0] * 20)[:20]; return j["p"]
def prop(pid, mask, jobs, bounds, outside="", **kw):
    """mask: the kinds of obligation (harness/src/sx.rs) this property is about; parameter 15 of every job"""
    def js(tier):
        out = jobs(tier)
        for j in out: pad(j)[15] = mask
        return out
    PROPS[pid] = dict(jobs=js, bounds=bounds, outside=outside, **kw)
def q(tier, a, b): return a if tier == "quick" else b

def states(h, names, w, feed=ONE, pause=P_NONE, **kw): return [h1(h, c, w, feed, pause, **kw) for c in grp(*names)]
def wide(h, names, t, pauses):
    """URL-encoded bodies of any declared length beyond the bytes given"""
    if "ue" not in names: return []
    return [j for pz in pauses for j in states(h, ("ue",), q(t, 3, 4), ONE, pz, ulen=-3) + states(h, ("ue",), q(t, 3, 4), CUT1, pz, ulen=-3)] + [h1(h, c, 1, BYTES, P_ALL if pz == P_SYM else pz, lo=a, hi=min(a + 7, len(T.CASES[c][3]) - 1), cutlo=0, ulen=-3) for pz in pauses for c in tgrp("t.ue") for a in range(0, len(T.CASES[c][3]), 8)]
def windows(h, prefixes, w, feed=ONE, pause=P_NONE, step=8, **kw):
    """every position of a w-byte window inside every template"""
    out = []
    for c in [c for p in prefixes for c in tgrp(p)]:
        n = len(T.CASES[c][3]) - w + 1
        for a in range(0, n, step): out.append(h1(h, c, w, feed, pause, lo=a, hi=min(n - 1, a + step - 1), cutlo=0, ulen=-2, **kw))
    return out
def far(js, d):
    """one more symbolic byte, at most d bytes behind the window"""
    for j in js: pad(j)[12] = d; j["label"] += " +1 within %d" % d
    return js
def inst(js, n):
    """the window is inserted, or put in the place of n bytes"""
    for j in js: pad(j)[13] = n + 1; j["label"] += " for %d" % n
    return js
def edits(h, tpl, t, *a):
    """windows that make a message longer or shorter"""
    return [j for w, n in q(t, ((2, 0), (1, 2), (1, 4)), ((3, 0), (2, 0), (1, 0), (2, 1), (1, 2), (1, 3), (1, 4), (2, 5), (1, 6), (2, 8))) for j in inst(windows(h, tpl, w, *a), n)]
def longcut(h, lng, t, pause=P_NONE):
    """long items: one cut anywhere, a symbolic byte at a few places"""
    out = []
    for c in [c for p in lng for c in tgrp(p)]:
        n = len(T.CASES[c][3])
        for a in range(q(t, 128, 32), n, q(t, 128, 32)): out.append(h1(h, c, 1, CUT1, pause, lo=a, hi=a, cutlo=0, ulen=-2))
    return out
CODES.update({100: "outcome differs from the reference model", 101: "error kind differs from the reference model", 102: "error byte differs from the reference model",
              103: "number of bytes consumed differs from the reference model", 104: "callbacks or data before the error differ from the reference model", 105: "callbacks or data differ from the reference model",
              200: "outcome depends on cuts/pauses", 201: "error kind depends on cuts/pauses", 202: "error byte depends on cuts/pauses", 203: "bytes consumed depend on cuts/pauses", 204: "callbacks or data before the error depend on cuts/pauses",
              205: "callbacks or data depend on cuts/pauses", 301: "a dead parser did not answer Dead", 302: "a finished parser did not answer Finished(0)", 303: "callback after the end", 304: "byte count changed after the end",
              305: "state is not Dead", 306: "state is not Finished", 307: "re-initialisation changed the byte count", 310: "re-initialised parser: other outcome", 311: "re-initialised parser: other error", 312: "re-initialised parser: other error byte",
              313: "re-initialised parser: other consumption", 314: "re-initialised parser: other callbacks before the error", 315: "re-initialised parser: other callbacks", 316: "re-initialised parser: other consumption", 106: "number of bytes consumed differs from the reference model", 206: "bytes consumed depend on cuts/pauses", 910: "an end-of-slice success did not consume the slice", 911: "byte_count did not advance by the bytes consumed", 913: "more consumed than given", 916: "paused at another byte than the one completing the item", 901: "callback after one that returned false", 912: "a false answer did not stop the call", 915: "callback success although no callback returned false", 919: "a paused call is repeated without end", 308: "callback after the completing one", 914: "finished, but the state is another", 917: "error, but the state is not Dead", 320: "re-initialised parser: other state"})
HEADG, BODYG = ("rq", "rs", "hd"), ("ck", "mp0", "mp1", "mp2", "ue")
HEADT, BODYT = ("t.rq", "t.rs", "t.name", "t.hd"), ("t.ck", "t.mp", "t.ue")
HEADL, BODYL = ("l.rq", "l.rs", "l.hd"), ("l.ck", "l.mp", "l.ue")
OUT1 = "Windows of more symbolic bytes than stated, more than two independent symbolic windows in one input, items and histories longer than stated."
def NS(n): return "%d state prefixes" % n
def b1(txt):
    def f(tier): return dict(tier=tier, text=txt(tier) if callable(txt) else txt)
    return f

def txt(*parts): return lambda tier: dict(tier=tier, what=[p(tier) if callable(p) else p for p in parts])
SCOPE1 = ("The parser is brought by a concrete prefix into every state of its state machine (%d prefixes), then w symbolic bytes follow (each over all 256 values); "
          "and in %d whole messages every window of w consecutive bytes is made symbolic.")
def scope(names, tpl): return SCOPE1 % (len(grp(*names)), len([c for p in tpl for c in tgrp(p)]))

# --- robustness
def safe(names, tpl, lng):
    def jobs(t):
        return (wide("h1_safe", names, t, (P_SYM,)) + states("h1_safe", names, q(t, 4, 5), CUT1, P_SYM, need=(0, 1, 2)) + states("h1_safe", names, q(t, 2, 3), EMPTY, P_SYM) + states("h1_safe", names, q(t, 5, 6))
                + windows("h1_safe", tpl, 1, CUT1, P_SYM if t != "quick" else P_ALL, need=(0, 1, 2)) + windows("h1_safe", tpl, q(t, 2, 3), BYTES, P_ALL) + windows("h1_safe", lng, 1, BYTES, step=40))
    return jobs
SAFEB = txt(lambda t: "state prefixes: w=%d with one cut anywhere and every callback's answer symbolic; w=%d with empty slices between all bytes; w=%d uncut" % (q(t, 4, 5), q(t, 2, 3), q(t, 5, 6)),
            lambda t: "templates: 1 symbolic byte with one cut anywhere; %d symbolic bytes fed byte by byte; items of 300 bytes with 1 symbolic byte" % q(t, 2, 3))
prop("C01", SAFE, safe(HEADG, HEADT, HEADL), lambda t: dict(SAFEB(t), scope=scope(HEADG, HEADT)), OUT1)
prop("C02", SAFE, safe(BODYG, BODYT, BODYL), lambda t: dict(SAFEB(t), scope=scope(BODYG, BODYT)), OUT1)

# --- fragmentation
def frag(names, tpl, lng):
    def jobs(t):
        return (wide("h1_diff", names, t, (P_NONE,)) + longcut("h1_diff", lng, t) + states("h1_diff", names, q(t, 4, 5), CUT1, need=(0, 1, 2)) + states("h1_diff", names, q(t, 3, 5), CUT2) + states("h1_diff", names, q(t, 4, 5), BYTES) + states("h1_diff", names, q(t, 2, 4), EMPTY)
                + windows("h1_diff", tpl, 1, CUT1, need=(0, 1, 2)) + windows("h1_diff", tpl, q(t, 2, 3), BYTES) + windows("h1_diff", tpl, 1, EMPTY) + windows("h1_diff", lng, 1, BYTES, step=40)
                + ([] if t == "quick" else windows("h1_diff", tpl, 1, CUT2, step=2) + windows("h1_diff", tpl, 2, CUT1, step=4) + states("h1_diff", names, 4, CUT3)))
    return jobs
FRAGB = txt(lambda t: "state prefixes: w=%d with one cut, w=%d with two cuts, w=%d byte by byte, w=%d byte by byte with empty slices" % (q(t, 4, 5), q(t, 3, 5), q(t, 4, 5), q(t, 2, 4)),
            lambda t: "templates: 1 symbolic byte with one cut anywhere%s; %d symbolic bytes byte by byte; items of 300 bytes" % (q(t, "", " and with two cuts anywhere, 2 symbolic bytes with one cut"), q(t, 2, 3)))
prop("C05", RES, frag(HEADG, HEADT, HEADL), lambda t: dict(FRAGB(t), scope=scope(HEADG, HEADT)), OUT1)
prop("C06", RES, frag(BODYG, BODYT, BODYL), lambda t: dict(FRAGB(t), scope=scope(BODYG, BODYT)), OUT1)

# --- exactness against the reference model
def ref(names, tpl, lng=()):
    def jobs(t):
        out = states("h1_ref", names, q(t, 5, 6), need=(0, 2)) + states("h1_ref", names, q(t, 4, 5), BYTES) + states("h1_ref", names, q(t, 4, 5), PREFIX) + states("h1_ref", names, q(t, 3, 4), CUT1)
        out += windows("h1_ref", tpl, 2, need=(1, 2)) + windows("h1_ref", tpl, 2, BYTES) + windows("h1_ref", tpl, 1, CUT1) + windows("h1_ref", lng, 1, ONE, step=40) + windows("h1_ref", lng, 1, BYTES, step=40)
        out += wide("h1_ref", names, t, (P_NONE, P_ALL)) + longcut("h1_ref", lng, t)
        out += states("h1_ref", names, q(t, 4, 5), ONE, P_ALL) + states("h1_ref", names, q(t, 3, 4), CUT1, P_SYM) + windows("h1_ref", tpl, 1, ONE, P_ALL) + windows("h1_ref", tpl, 1, BYTES, P_ALL)
        if t != "quick": out += windows("h1_ref", tpl, 3, step=2) + windows("h1_ref", tpl, 2, CUT1, step=2) + windows("h1_ref", tpl, 2, ONE, P_ALL) + windows("h1_ref", tpl, 1, CUT1, P_ALL, step=4)
        return out
    return jobs
REFB = txt(lambda t: "state prefixes: w=%d in one call, w=%d byte by byte, w=%d with a cut before the window, w=%d with a cut anywhere in it" % (q(t, 5, 6), q(t, 4, 5), q(t, 4, 5), q(t, 3, 4)),
           lambda t: "templates: %d symbolic bytes in one call, 2 byte by byte, %d with one cut anywhere; items of 300 bytes with 1 symbolic byte" % (q(t, 2, 3), q(t, 1, 2)),
           lambda t: "callbacks answering false: state prefixes: w=%d with all, w=%d with symbolic answers and a cut anywhere; templates: all, with %d symbolic bytes in one call, 1 byte by byte" % (q(t, 4, 5), q(t, 3, 4), q(t, 1, 2)))
for pid, names, tpl, lng in (("C08", ("rq",), ("t.rq",), ("l.rq",)), ("C09", ("rs",), ("t.rs",), ("l.rs",)), ("C10", ("hd",), ("t.name", "t.hd"), ("l.hd",)),
                             ("C11", ("ck",), ("t.ck",), ("l.ck",)), ("C12", ("mp0", "mp1", "mp2"), ("t.mp",), ("l.mp",)), ("C13", ("ue",), ("t.ue",), ("l.ue",))):
    prop(pid, RES, ref(names, tpl, lng), lambda t, n=names, p=tpl: dict(REFB(t), scope=scope(n, p), oracle="harness/src/refs.rs, a byte-at-a-time model of the grammar the property states"), OUT1)

# --- pauses
ALLG, ALLT, ALLL = HEADG + BODYG, HEADT + BODYT, HEADL + BODYL
def pauses(t):
    out = wide("h1_diff", BODYG, t, (P_ALL,)) + longcut("h1_diff", ALLL, t, P_ALL)
    out += states("h1_diff", ALLG, q(t, 4, 5), ONE, P_ONE, need=(0, 1, 2)) + states("h1_diff", ALLG, q(t, 4, 5), ONE, P_ALL) + states("h1_diff", ALLG, q(t, 3, 4), ONE, P_TWO)
    out += states("h1_diff", ALLG, q(t, 2, 4), CUT1, P_ONE) + states("h1_diff", ALLG, q(t, 3, 4), CUT1, P_ALL) + states("h1_diff", ALLG, q(t, 3, 4), BYTES, P_ALL)
    out += windows("h1_diff", ALLT, 1, ONE, P_ONE, need=(0, 1, 2)) + windows("h1_diff", ALLT, 1, ONE, P_ALL) + windows("h1_diff", ALLT, 1, BYTES, P_ALL) + windows("h1_diff", ALLL, 1, ONE, P_ALL, step=40)
    if t != "quick": out += windows("h1_diff", ALLT, 1, CUT1, P_ONE, step=2) + windows("h1_diff", ALLT, 1, CUT1, P_ALL, step=2) + windows("h1_diff", ALLT, 1, ONE, P_TWO, step=2)
    return out
PAUSEB = txt(lambda t: "state prefixes: w=%d with one callback (any) or every callback answering false; w=%d with any two; with one cut: w=%d any one, w=%d all" % (q(t, 4, 5), q(t, 3, 4), q(t, 2, 4), q(t, 3, 4)),
             lambda t: "templates with 1 symbolic byte: any one callback, all callbacks, all callbacks byte by byte%s" % q(t, "", ", any two, and any one or all with one cut anywhere"))
prop("C14", RES | PAUSE, pauses, lambda t: dict(PAUSEB(t), scope=scope(ALLG, ALLT)), OUT1)

# --- counts
def counts(t):
    out = wide("h1_ref", BODYG, t, (P_ALL,)) + longcut("h1_ref", ALLL, t, P_ALL)
    out += states("h1_ref", ALLG, q(t, 4, 5), ONE, P_ALL, need=(0, 1, 2)) + states("h1_ref", ALLG, q(t, 3, 4), CUT1, P_ALL) + states("h1_ref", ALLG, q(t, 3, 5), BYTES) + states("h1_ref", ALLG, q(t, 2, 3), EMPTY, P_ALL)
    out += states("h1_ref", ALLG, q(t, 2, 3), CUT1, P_SYM)
    out += windows("h1_ref", ALLT, 1, ONE, P_ALL, need=(0, 1, 2)) + windows("h1_ref", ALLT, 1, CUT1) + windows("h1_ref", ALLT, 1, BYTES, P_ALL) + windows("h1_ref", ALLL, 1, BYTES, P_ALL, step=40)
    if t != "quick": out += windows("h1_ref", ALLT, 2, ONE, P_ALL) + windows("h1_ref", ALLT, 1, CUT1, P_ALL, step=4) + windows("h1_ref", ALLT, 1, CUT2, step=2)
    return out
prop("C15", CNT, counts, txt(lambda t: "state prefixes: w=%d all callbacks answering false, w=%d with a cut, w=%d byte by byte, w=%d with empty slices, w=%d with a cut and symbolic answers" % (q(t, 4, 5), q(t, 3, 4), q(t, 3, 5), q(t, 2, 3), q(t, 2, 3)),
     lambda t: "templates with 1 symbolic byte%s: pausing at every callback, one cut anywhere, byte by byte" % q(t, "", " (2 when pausing)"), scope(ALLG, ALLT)), OUT1)

# --- finality and re-initialisation
def final1(t):
    out = []
    for s in T.SECOND:
        for pz in (P_NONE, P_ONE, P_ALL):
            out += states("h1_final", ALLG, q(t, 2, 3), ONE, pz, extra=(s, 2), need=(0, 1, 2) if pz == P_NONE else ())
    return out
def bfinal1(t): return "HTTP/1: from each of %d state prefixes %d symbolic bytes, then two further calls with 2 symbolic bytes after an error or the end; then, from there or from a paused or unfinished point, reset or re-initialisation for each mode followed by a message ending in 2 symbolic bytes" % (len(grp(*ALLG)), q(t, 2, 3))
prop("C16", FINAL, final1, txt(bfinal1), OUT1)

# ================================================================ HTTP/2
TN = {-1: "any", 0: "DATA", 1: "HEADERS", 2: "PRIORITY", 3: "RST_STREAM", 4: "SETTINGS", 5: "PUSH_PROMISE", 6: "PING", 7: "GOAWAY", 8: "WINDOW_UPDATE", 9: "CONTINUATION", 10: "unknown"}
def h2(h, text, w, feed=ONE, pause=P_NONE, lo=-1, hi=-1, cutlo=0, typ=-1, flags=-1, extra=(), group=None, need=(), span=0, **kw):
    g = next(g for g, l in T.G2.items() if text in l)
    return dict(h=h, p=([text, w, lo, hi, feed, pause, cutlo, typ, flags] + list(extra) + [0, 0])[:11] + [span], label="%s/%s%d%s%s w%d %s%s" % (h, g, text, "" if lo < 0 else "@%d-%d" % (lo, hi), "" if typ < 0 else " " + TN[typ], w, FN[feed], PN[pause]),
                group=group or h + "/" + g, need=list(need), **kw)
START = T.G2["start"][0]
def h2types(h, w, *a, **kw): return [h2(h, START, w, *a, typ=t, **kw) for t in range(11)]
def h2pay(h, w, *a, **kw): return [h2(h, t, w, *a, **kw) for t in T.G2["pay"]]
def h2win(h, groups, w, *a, step=8, **kw):
    out = []
    for c in [c for g in groups for c in T.G2[g]]:
        n = len(T.TEXTS2[c]) - w + 1
        for s in range(0, n, step): out.append(h2(h, c, w, *a, lo=s, hi=min(n - 1, s + step - 1), **kw))
    return out
def h2lw(h, t, pause=P_NONE, **kw):
    """one symbolic byte in frames of several hundred bytes: byte by byte (quick: only the 24 bytes from the symbolic one on)"""
    out = []
    for c in T.G2["long"]:
        n = len(T.TEXTS2[c])
        for s in range(0, n, 40): out.append(h2(h, c, 1, BYTES, pause, lo=s, hi=min(n - 1, s + 39), cutlo=q(t, -1, 0), span=q(t, 24, 0), **kw))
        out.append(h2(h, c, 1, ONE, pause, lo=0, hi=9, **kw))
    return out
LONGT = [(0, 0), (0, 8), (1, 0), (1, 8), (1, 0x20), (1, 0x28), (5, 0), (5, 8), (6, 0), (7, 0), (9, 0), (11, 0), (11, 8)]
def h2long(pieces, pauses, types=LONGT, short=0, **kw):
    return [dict(h="h2_long", p=[t, f, pz, pieces, short], label="h2_long/%s flags %x%s %d pieces%s" % (TN.get(t, t), f, PN[pz], pieces, " too short" if short else ""), group="h2_long" + ("/short" if short else ""), need=[] , **kw) for t, f in types for pz in pauses]
PLAIN = [(0, 0), (1, 0), (7, 0)]
def h2longs(t):
    out = h2long(1, (P_NONE, P_ALL)) + h2long(2, (P_NONE,), PLAIN, cost=9) + h2long(1, (P_NONE,), [x for x in LONGT if x[1] or x[0] in (5, 7)], 1)
    if t != "quick": out += h2long(2, (P_NONE, P_ALL), cost=20) + h2long(3, (P_NONE,), [(0, 0)], cost=30)
    return out
H2LB = lambda t: "long frames: any payload length up to 2^24-1, any pad length, any first payload bytes, in one or%s two pieces of any size (DATA, HEADERS, GOAWAY%s)" % (q(t, "", " three or"), q(t, "", "; every type padded or not in two"))
SCOPE2 = "frames are either symbolic from their first header byte (all 11 types of frame), or have a concrete length, type and flags (%d combinations) and a symbolic payload, or one window of bytes is symbolic in %d sequences of 7 to 8 frames" % (len(T.G2["pay"]), len(T.G2["tpl"]))
OUT2 = "More symbolic bytes or frames than stated; frame lengths that RFC 7540 forbids for PRIORITY, RST_STREAM, WINDOW_UPDATE and SETTINGS (only robustness is checked for those)."
def safe2(t):
    out = h2types("h2_safe", q(t, 12, 14), BYTES, P_ALL, need=(0,)) + h2types("h2_safe", q(t, 11, 12), CUT1, P_SYM) + h2types("h2_safe", q(t, 14, 18), need=(0, 2)) + h2types("h2_safe", q(t, 11, 13), EMPTY, P_ALL)
    out += h2pay("h2_safe", q(t, 3, 5), CUT1, P_SYM) + h2pay("h2_safe", q(t, 10, 14), BYTES, P_ALL)
    out += h2win("h2_safe", ("tpl",), 1, CUT1, P_ALL, cutlo=q(t, -1, 0), step=4) + h2win("h2_safe", ("tpl",), q(t, 1, 2), BYTES, P_ALL, step=4) + h2win("h2_safe", ("tpl",), q(t, 2, 3), step=4) + h2lw("h2_safe", t, P_ALL)
    return out + h2longs(t)
prop("C03", SAFE, safe2, txt(lambda t: "w=%d bytes from the start uncut, w=%d byte by byte pausing always, w=%d with a cut anywhere and symbolic answers, w=%d with empty slices" % (q(t, 14, 18), q(t, 12, 14), q(t, 11, 12), q(t, 11, 13)),
     lambda t: "payloads: %d symbolic bytes byte by byte, %d with a cut anywhere and symbolic answers; sequences: %d symbolic bytes in one call, %d byte by byte, 1 with a cut anywhere" % (q(t, 10, 14), q(t, 3, 5), q(t, 2, 3), q(t, 1, 2)), H2LB, SCOPE2), OUT2)
def frag2(t):
    out = h2types("h2_diff", q(t, 11, 14), CUT1, need=(0,), cost=5) + h2types("h2_diff", q(t, 13, 16), BYTES) + h2types("h2_diff", q(t, 11, 13), EMPTY)
    out += h2pay("h2_diff", q(t, 9, 12), CUT1) + h2pay("h2_diff", q(t, 10, 13), BYTES) + h2pay("h2_diff", q(t, 5, 8), CUT2) + h2pay("h2_diff", q(t, 8, 12), EMPTY)
    out += h2win("h2_diff", ("tpl",), 1, CUT1, cutlo=q(t, -1, 0), span=q(t, 40, 0), step=1) + h2win("h2_diff", ("tpl",), q(t, 1, 3), BYTES, step=4) + h2lw("h2_diff", t)
    if t != "quick": out += h2win("h2_diff", ("tpl",), 2, CUT1) + h2win("h2_diff", ("tpl",), 1, CUT2, step=2)
    return out
prop("C07", RES, frag2, txt(lambda t: "w=%d bytes from the start with one cut, w=%d byte by byte, w=%d with empty slices" % (q(t, 11, 14), q(t, 13, 16), q(t, 11, 13)),
     lambda t: "payloads: %d symbolic bytes with one cut, %d with two cuts, %d byte by byte, %d with empty slices; sequences: 1 symbolic byte with one cut anywhere (quick: in the 40 bytes from it on), %d byte by byte" % (q(t, 9, 12), q(t, 5, 8), q(t, 10, 13), q(t, 8, 12), q(t, 1, 3)), SCOPE2), OUT2)
def ref2(types, pays):
    def jobs(t):
        out = [j for j in h2types("h2_ref", q(t, 18, 22), need=(0,), group="h2_ref/start") + h2types("h2_ref", q(t, 12, 14), BYTES) if j["p"][7] in types]
        ps = [c for c in T.G2["pay"] if T.TEXTS2[c][3] in pays]
        out += [h2("h2_ref", c, q(t, 14, 20)) for c in ps] + [h2("h2_ref", c, q(t, 12, 16), BYTES) for c in ps] + [h2("h2_ref", c, q(t, 9, 12), CUT1) for c in ps]
        out += [j for j in h2types("h2_ref", q(t, 11, 13), CUT1, P_SYM) if j["p"][7] in types] + [h2("h2_ref", c, q(t, 9, 13), ONE, P_ALL) for c in ps] + [h2("h2_ref", c, q(t, 4, 6), CUT1, P_SYM) for c in ps] + h2win("h2_ref", ("tpl",), 1, ONE, P_ALL)
        out += h2win("h2_ref", ("tpl",), q(t, 2, 4), step=4) + h2win("h2_ref", ("tpl",), q(t, 1, 2), BYTES, step=4) + h2win("h2_ref", ("tpl",), 1, CUT1, cutlo=q(t, -1, 0), span=q(t, 40, 0), step=1) + h2lw("h2_ref", t)
        return out
    return jobs
REF2B = txt(lambda t: "w=%d bytes from the start in one call, w=%d byte by byte" % (q(t, 18, 22), q(t, 12, 14)),
            lambda t: "payloads: %d symbolic bytes in one call, %d byte by byte, %d with one cut; sequences: %d symbolic bytes in one call, %d byte by byte, 1 with one cut anywhere%s; callbacks answering false: all, or symbolic answers with a cut anywhere" % (q(t, 14, 20), q(t, 12, 16), q(t, 9, 12), q(t, 2, 4), q(t, 1, 2), q(t, " in the 40 bytes from it on", "")), SCOPE2)
ORA2 = dict(oracle="harness/src/h2.rs Ref2, a byte-at-a-time model of RFC 7540 framing")
prop("C17", RES, ref2(range(11), range(256)), lambda t: dict(REF2B(t), **ORA2), OUT2)
STREAMS, FIXED = (0, 1, 5, 6, 7, 9, 10), (1, 2, 3, 4, 5, 7, 8)
prop("C18", RES, lambda t: ref2(STREAMS, set(range(256)) - {2, 3, 4, 8})(t) + h2longs(t), lambda t: dict(REF2B(t), long=H2LB(t), **ORA2), OUT2)
prop("C19", RES, lambda t: ref2(FIXED, FIXED)(t) + [h2("h2_settings", START, 21, typ=4, need=(0,))], lambda t: dict(REF2B(t), settings="SETTINGS frames with two settings, all bytes symbolic", **ORA2), OUT2)
def pauses2(t):
    out = h2types("h2_diff", q(t, 13, 16), ONE, P_ONE, need=(0,)) + h2types("h2_diff", q(t, 13, 16), ONE, P_ALL) + h2types("h2_diff", q(t, 11, 13), BYTES, P_ALL)
    out += h2pay("h2_diff", q(t, 9, 12), ONE, P_ONE) + h2pay("h2_diff", q(t, 9, 12), ONE, P_ALL) + h2pay("h2_diff", q(t, 5, 8), CUT1, P_ALL) + h2pay("h2_diff", q(t, 6, 9), ONE, P_TWO)
    out += h2win("h2_diff", ("tpl",), 1, ONE, P_ONE, step=4) + h2win("h2_diff", ("tpl",), q(t, 1, 2), ONE, P_ALL, step=4) + h2win("h2_diff", ("tpl",), 1, CUT1, P_ALL, cutlo=q(t, -1, 0), span=q(t, 40, 0), step=1) + h2lw("h2_diff", t, P_ALL)
    out += h2types("h2_ref", q(t, 12, 14), ONE, P_ALL) + h2types("h2_ref", q(t, 11, 12), CUT1, P_SYM) + h2pay("h2_ref", q(t, 10, 14), ONE, P_ALL) + h2pay("h2_ref", q(t, 4, 6), CUT1, P_SYM) + h2win("h2_ref", ("tpl",), 1, BYTES, P_ALL)
    out += [h2("h2_final", T.G2["tpl"][0], 2, ONE, pz, lo=0, hi=9, extra=(s, 2)) for s in T.SECOND2[:1] for pz in (P_NONE, P_ONE)]
    return out + h2long(1, (P_ALL,)) + h2long(2, (P_ALL,), PLAIN if t == "quick" else LONGT, cost=9)
prop("C20", RES | CNT | PAUSE, pauses2, txt(lambda t: "w=%d bytes from the start with any one or every callback answering false" % q(t, 13, 16),
     lambda t: "payloads: %d symbolic bytes with any one or all, %d with any two, %d with a cut anywhere and all; symbolic answers with a cut anywhere: w=%d, payloads %d" % (q(t, 9, 12), q(t, 6, 9), q(t, 5, 8), q(t, 11, 12), q(t, 4, 6)),
     lambda t: "sequences: 1 symbolic byte with any one, or with a cut anywhere (quick: in the 40 bytes from it on) and all; %d with all" % q(t, 1, 2), lambda t: "long frames: any payload length, pausing at every callback, one or two pieces", SCOPE2), OUT2)
def final2(t):
    out = []
    for s in T.SECOND2:
        for pz in (P_NONE, P_ONE):
            out += h2types("h2_final", q(t, 10, 12), ONE, pz, extra=(s, 2)) + h2pay("h2_final", q(t, 2, 4), ONE, pz, extra=(s, 2)) + h2win("h2_final", ("tpl",), 1, ONE, pz, extra=(s, 1))
    return out
def final12(t): return final1(t) + final2(t)
prop("C16", FINAL, final12, txt(bfinal1, lambda t: "HTTP/2: after w=%d bytes from the start, %d payload bytes or 1 symbolic byte in a frame sequence, run to the end or stopped at any of the first callbacks: two further calls when dead, then reset and one of %d frame sequences ending in symbolic bytes" % (q(t, 10, 12), q(t, 2, 4), len(T.SECOND2))), OUT1)

# ================================================================ long items of HTTP/1 bodies
HL = ["h1_long"]
def h1long(t, modes):
    out = []
    for pz in (P_NONE, P_ALL):
        for pieces in (1, 2) if t == "quick" else (1, 2, 3):
            if 2 in modes: out += [dict(h="h1_long", p=[2, n, pz, pieces], label="h1_long/chunk %d digits%s %d pieces" % (n, PN[pz], pieces), group="h1_long/chunk", need=[]) for n in ((1, 2, 8) if t == "quick" else range(1, 9))]
            if 3 in modes: out += [dict(h="h1_long", p=[3, 1, pz, pieces], label="h1_long/multipart%s %d pieces" % (PN[pz], pieces), group="h1_long/multipart", need=[])]
    return out
def add(pid, more, what):
    o = PROPS[pid]; js, bs = o["jobs"], o["bounds"]; mask = js("quick")[0]["p"][15]
    def jobs(t):
        out = more(t)
        for j in out: pad(j)[15] = mask
        return js(t) + out
    o["jobs"] = jobs; o["bounds"] = lambda t: dict(bs(t), more=what if isinstance(what, str) else what(t))
LONG1 = lambda t: "long items: any chunk length (8 digits: up to 2^32-1) or multipart content length (up to 2^32-1), the data in one%s two pieces of any size, never or always pausing" % q(t, " or", ", three or")
for pid, modes in (("C02", (2, 3)), ("C11", (2,)), ("C12", (3,)), ("C15", (2, 3)), ("C14", (2, 3))): add(pid, lambda t, m=modes: h1long(t, m), LONG1)

# ================================================================ two symbolic bytes apart from each other; longer and shorter messages
EDIT = lambda t: "windows that lengthen or shorten a template: %s symbolic bytes for as many bytes" % q(t, "2 for 0, 1 for 2, 1 for 4", "3, 2 and 1 for 0, 2 for 1, 1 for 2, 3, 4 and 6, 2 for 5 and 8")
def pairs1(h, tpl, dq, dt, *a):
    """dq, dt: furthest distance, for whole messages and for the many short header templates"""
    def jobs(t):
        d = q(t, dq, dt)
        big, many = [x for x in tpl if x not in ("t.name", "t.rq")], [x for x in tpl if x in ("t.name", "t.rq")]
        return far(windows(h, big, 1, *a, step=4), d) + far(windows(h, many, 1, *a), min(d, q(t, 8, 40))) + edits(h, tpl, t, *a)
    return jobs
def PAIRB(dq, dt, how): return lambda t: "templates, %s: two separate symbolic bytes at most %s bytes apart (request lines and single headers: %d); %s" % (how, q(t, dq, dt), min(q(t, dq, dt), q(t, 8, 40)), EDIT(t))
for pid, tpl in (("C08", ("t.rq",)), ("C09", ("t.rs",)), ("C10", ("t.name", "t.hd")), ("C11", ("t.ck",)), ("C12", ("t.mp",)), ("C13", ("t.ue",))): add(pid, pairs1("h1_ref", tpl, 300, 300), PAIRB(300, 300, "in one call"))
for pid, tpl in (("C05", HEADT), ("C06", BODYT)): add(pid, pairs1("h1_diff", tpl, 12, 100, BYTES), PAIRB(12, 100, "byte by byte"))
for pid, tpl in (("C01", HEADT), ("C02", BODYT)): add(pid, pairs1("h1_safe", tpl, 16, 100, BYTES, P_ALL), PAIRB(16, 100, "byte by byte, every callback answering false"))
add("C14", pairs1("h1_diff", ALLT, 12, 100, ONE, P_ALL), PAIRB(12, 100, "every callback answering false"))
add("C15", pairs1("h1_ref", ALLT, 12, 100, ONE, P_ALL), PAIRB(12, 100, "every callback answering false"))
add("C16", lambda t: [j for s in T.SECOND for j in windows("h1_final", ALLT, 1, extra=(s, 1))][::q(t, 3, 1)], "a symbolic byte in the first message's template")
def pairs2(h, dq, dt, *a):
    def jobs(t):
        out = far(h2win(h, ("tpl",), 1, *a, step=2), q(t, dq, dt))
        for w, n in q(t, ((2, 0), (1, 3)), ((3, 0), (2, 0), (1, 2), (1, 3), (1, 4), (1, 9))): out += inst(h2win(h, ("tpl",), w, *a, step=4), n)
        return out
    return jobs
def PAIRB2(dq, dt, how): return lambda t: "sequences, %s: two separate symbolic bytes (other than length bytes) at most %d bytes apart; windows that lengthen or shorten a sequence: %s symbolic bytes for as many bytes" % (how, q(t, dq, dt), q(t, "2 for 0, 1 for 3", "3 and 2 for 0, 1 for 2, 3, 4 and 9"))
for pid in ("C17", "C18", "C19"): add(pid, pairs2("h2_ref", 300, 300), PAIRB2(300, 300, "in one call"))
add("C07", pairs2("h2_diff", 40, 300, BYTES), PAIRB2(40, 300, "byte by byte"))
add("C03", pairs2("h2_safe", 40, 300, BYTES, P_ALL), PAIRB2(40, 300, "byte by byte, every callback answering false"))
add("C20", pairs2("h2_diff", 40, 300, ONE, P_ALL), PAIRB2(40, 300, "every callback answering false"))

# ================================================================ long histories: a part repeated many times
def many(h, groups, k, w=1, feed=ONE, pause=P_NONE, step=1, extra=(), **kw):
    """k repetitions of a part, w symbolic bytes at every place from the last of them on"""
    out = []
    for c in [c for g in groups for c in (T.GROUPS if h[:2] == "h1" else T.G2)[g]]:
        text, (a, b) = (T.CASES[c][3], T.UNIT1[c]) if h[:2] == "h1" else (T.TEXTS2[c], T.UNIT2[c])
        if h == "h1_nil" and T.CASES[c][2] != (None,): continue
        n = len(text) + (k - 1) * (b - a)
        for at in range(a + (k - 1) * (b - a), n - w + 1, step):
            if h[:2] == "h1": j = h1(h, c, w, feed, pause, lo=at, hi=at, cutlo=0 if feed == BYTES else -1, ulen=-2, extra=extra, **kw)
            elif h[:2] == "h2": j = h2(h, c, w, feed, pause, lo=at, hi=at, cutlo=0 if feed == BYTES else -1, extra=extra, **kw)
            else: j = u(h, c, w, at, at, **kw)
            pad(j)[16:20] = k, 4 * n + 4000, a, b
            j["maxic"] = 10 ** 9; j["label"] += " x%d" % k
            out.append(j)
    return out
def addmany(pid, h, groups, quick, thorough, extras=((),)):
    """quick, thorough: lists of (repetitions, symbolic bytes, feed, pause, step)"""
    add(pid, lambda t: [j for k, w, f, pz, st in q(t, quick, quick + thorough) for e in extras for j in many(h, groups, k, w, f, pz, st, extra=e)],
        lambda t: "long histories: in %d templates a part (a header line, chunk, part, pair, frame, or a byte or two of an item) is repeated %s; symbolic bytes at every place from the last repetition on" %
        (len([c for g in groups for c in (T.GROUPS if h[:2] == "h1" else T.G2)[g]]), ", ".join("%d times (%d bytes, %s%s)" % (k, w, FN[f], PN[pz]) for k, w, f, pz, st in q(t, quick, quick + thorough))))
MHEAD, MBODY = ("m.rq", "m.rs", "m.hd"), ("m.ck", "m.mp", "m.ue")
for pid, g in (("C08", "m.rq"), ("C09", "m.rs"), ("C10", "m.hd"), ("C11", "m.ck"), ("C12", "m.mp"), ("C13", "m.ue")):
    addmany(pid, "h1_ref", (g,), [(300, 2, ONE, P_NONE, 1), (5000, 1, ONE, P_NONE, 1), (300, 1, BYTES, P_NONE, 1)], [(300, 3, ONE, P_NONE, 1), (300, 2, CUT1, P_NONE, 1), (66000, 1, ONE, P_NONE, 3), (1100, 1, BYTES, P_ALL, 1)])
for pid, g in (("C05", MHEAD), ("C06", MBODY)): addmany(pid, "h1_diff", g, [(300, 1, BYTES, P_NONE, 1)], [(300, 2, BYTES, P_NONE, 1), (300, 2, CUT1, P_NONE, 1), (5000, 1, BYTES, P_NONE, 2)])
for pid, g in (("C01", MHEAD), ("C02", MBODY)): addmany(pid, "h1_safe", g, [(300, 1, BYTES, P_ALL, 1), (5000, 1, ONE, P_NONE, 2)], [(300, 2, BYTES, P_ALL, 1), (66000, 1, ONE, P_NONE, 5)])
addmany("C14", "h1_diff", MHEAD + MBODY, [(300, 1, ONE, P_ALL, 1)], [(300, 2, ONE, P_ALL, 1), (1100, 1, BYTES, P_ALL, 2)])
addmany("C15", "h1_ref", MHEAD + MBODY, [(300, 1, ONE, P_ALL, 1), (5000, 1, ONE, P_NONE, 3)], [(300, 2, ONE, P_ALL, 1), (1100, 1, BYTES, P_ALL, 2), (66000, 1, ONE, P_NONE, 7)])
addmany("C16", "h1_final", MHEAD + MBODY, [(300, 1, ONE, P_NONE, 3)], [(300, 2, ONE, P_NONE, 1)], [(x, 1) for x in T.SECOND])
addmany("C16", "h2_final", ("m.2",), [(300, 1, ONE, P_NONE, 5)], [(300, 1, ONE, P_NONE, 1)], [(x, 1) for x in T.SECOND2[:1]])
for pid in ("C17", "C18", "C19"): addmany(pid, "h2_ref", ("m.2",), [(300, 1, ONE, P_NONE, 1)], [(300, 2, ONE, P_NONE, 2), (5000, 1, ONE, P_NONE, 3), (300, 1, BYTES, P_NONE, 2)])
addmany("C07", "h2_diff", ("m.2",), [(300, 1, BYTES, P_NONE, 3)], [(300, 1, BYTES, P_NONE, 1), (300, 1, CUT1, P_NONE, 3)])
addmany("C03", "h2_safe", ("m.2",), [(300, 1, BYTES, P_ALL, 3)], [(300, 1, BYTES, P_ALL, 1), (5000, 1, ONE, P_NONE, 5)])
addmany("C20", "h2_diff", ("m.2",), [(300, 1, ONE, P_ALL, 3)], [(300, 1, ONE, P_ALL, 1), (300, 1, BYTES, P_ALL, 3)])

# ================================================================ utilities
def u(h, text, w, lo=-1, hi=-1, delim=59, norm=1, need=(), **kw):
    g = next(g for g, l in T.G2.items() if text in l)
    return dict(h=h, p=[text, w, lo, hi, delim, norm], label="%s/%s%d%s w%d%s" % (h, g, text, "" if lo < 0 else "@%d-%d" % (lo, hi), w, "" if h != "u_field" else " delim %s norm %d" % (delim, norm)), group=h, need=list(need), **kw)
def uwin(h, groups, w, step=8, **kw):
    out = []
    for c in [c for g in groups for c in T.G2[g]]:
        n = len(T.TEXTS2[c]) - w + 1
        for s in range(0, n, step): out.append(u(h, c, w, s, min(n - 1, s + step - 1), **kw))
    return out
def upre(h, group, w, **kw): return [u(h, c, w, **kw) for c in T.G2[group]]
DEL = (59, 44, 38)
def umany(h, g, t, **kw): return many(h, (g,), 300, q(t, 2, 3), **kw) + many(h, (g,), q(t, 2000, 10000), 1, **kw)
def uedit(h, groups, t, **kw): return far(uwin(h, groups, 1, step=4, **kw), 300) + inst(uwin(h, groups, 2, **kw), 0) + inst(uwin(h, groups, q(t, 1, 2), **kw), q(t, 2, 3))
def udec(t): return umany("u_decode", "m.dec", t) + uedit("u_decode", ("u.dect",), t) + upre("u_decode", "u.dec", q(t, 4, 5), need=(1, 2), parts=q(t, 1, 8)) + uwin("u_decode", ("u.dect",), q(t, 3, 4), step=1) + uwin("u_decode", ("u.decl",), 1, step=20)
def uqry(t): return umany("u_query", "m.qry", t) + uedit("u_query", ("u.qryt",), t) + upre("u_query", "u.qry", q(t, 4, 5), need=(1, 2), parts=q(t, 1, 8)) + uwin("u_query", ("u.qryt",), q(t, 3, 4), step=1) + uwin("u_query", ("u.qryl",), 1, step=20)
def ufld(t): return [j for d in DEL for n in (0, 1) for j in (umany("u_field", "m.fld", t, delim=d, norm=n) if d == 59 else []) + uedit("u_field", ("u.fldt",), t, delim=d, norm=n) + upre("u_field", "u.fld", q(t, 4, 5), delim=d, norm=n, need=(1, 2)) + uwin("u_field", ("u.fldt",), q(t, 3, 4), delim=d, norm=n, step=q(t, 8, 2)) + (uwin("u_field", ("u.fldl",), 1, delim=d, norm=n, step=20) if d == 59 else [])]
def uany(t): return upre("u_field", "u.fld", q(t, 3, 4), delim=-1) + upre("u_field", "u.fld", q(t, 3, 4), delim=-1, norm=0) + uwin("u_field", ("u.fldt",), q(t, 1, 2), delim=-1, step=8)
UB = lambda what: txt(lambda t: "%s: %d symbolic bytes after each of several prefixes (the empty one among them), and windows of %d symbolic bytes everywhere in whole inputs (of 1 byte in inputs of several hundred bytes); in whole inputs also two separate symbolic bytes anywhere, and windows that lengthen (2 bytes) or shorten (%s) the input; and inputs in which a part is repeated 300 times (%d symbolic bytes from the last repetition on) or %d times (1)" % (what, q(t, 4, 5), q(t, 3, 4), q(t, "1 for 2", "2 for 3"), q(t, 2, 3), q(t, 2000, 10000)))
UO = "More symbolic bytes than stated; text lengths beyond the templates'."
UORA = dict(oracle="harness/src/main4.rs ref_*, models of the decoders, with RFC 3629's UTF-8 grammar")
def uall(t): return udec(t) + uqry(t) + ufld(t)
prop("C04", SAFE, lambda t: uall(t) + uany(t), lambda t: dict(UB("decode, query iteration, field iteration with delimiters ; , & and normalisation on and off")(t), any_delimiter="field iteration with any delimiter byte: %d symbolic bytes after the prefixes, %d in whole inputs" % (q(t, 3, 4), q(t, 1, 2))), UO)
prop("C23", RES, udec, lambda t: dict(UB("decode")(t), **UORA), UO)
prop("C24", RES, uqry, lambda t: dict(UB("query iteration")(t), **UORA), UO)
prop("C25", RES, ufld, lambda t: dict(UB("field iteration with delimiters ; , & and normalisation on and off")(t), **UORA), UO)
prop("C26", UTF, lambda t: uall(t) + uany(t), lambda t: dict(UB("decode, query iteration, field iteration (any delimiter)")(t), **UORA), UO)

# ================================================================ code points
def conv(h, need): return dict(h=h, p=[0], label=h, group=h, need=need)
prop("C21", RES, lambda t: [conv("c_byte", [0])], lambda t: dict(tier=t, what="all 256 byte values; no bound"))
prop("C22", RES, lambda t: [conv("c_flags", [0]), conv("c_frame_type", [0, 1]), conv("c_error_code", [0, 1]), conv("c_setting", [0, 1]), conv("c_frame_format", [0])], lambda t: dict(tier=t, what="all values of every argument; no bound"))
def nil(t):
    ok = [c for c in range(len(T.CASES)) if T.CASES[c][2] == (None,)]
    pick = lambda js: [j for j in js if j["h"][:2] == "h2" or j["p"][0] in ok]
    out = pick(states("h1_nil", ALLG, q(t, 4, 5), ONE, need=(0, 1, 2)) + states("h1_nil", ALLG, q(t, 3, 4), CUT1) + windows("h1_nil", ALLT, q(t, 1, 2), ONE, need=(0, 1, 2)) + windows("h1_nil", ALLT, 1, BYTES))
    out += h2types("h2_nil", q(t, 13, 16), need=(0,)) + h2types("h2_nil", q(t, 12, 14), BYTES) + h2pay("h2_nil", q(t, 8, 12)) + h2pay("h2_nil", q(t, 6, 9), CUT1) + h2win("h2_nil", ("tpl",), 1) + h2win("h2_nil", ("tpl",), 1, BYTES)
    return out
prop("C27", RES, nil, txt(lambda t: "HTTP/1 state prefixes: w=%d in one call, w=%d with one cut; templates: %d symbolic bytes in one call, 1 byte by byte" % (q(t, 4, 5), q(t, 3, 4), q(t, 1, 2)),
     lambda t: "HTTP/2: w=%d bytes from the start, %d payload bytes, 1 byte in frame sequences" % (q(t, 13, 16), q(t, 8, 12))), "Handlers that override some callbacks and leave others (each default is exercised on its own).")
addmany("C27", "h1_nil", MHEAD + MBODY, [(300, 1, ONE, P_NONE, 2)], [(300, 2, ONE, P_NONE, 1), (5000, 1, ONE, P_NONE, 3)])
addmany("C27", "h2_nil", ("m.2",), [(300, 1, ONE, P_NONE, 4)], [(300, 1, ONE, P_NONE, 1)])
add("C27", lambda t: [j for j in pairs1("h1_nil", ALLT, 8, 100)(t) if j["p"][0] in [c for c in range(len(T.CASES)) if T.CASES[c][2] == (None,)]] + pairs2("h2_nil", 40, 300)(t), lambda t: [PAIRB(8, 100, "in one call")(t), PAIRB2(40, 300, "in one call")(t)])
def ftext(t):
    out = [dict(h="f_text", p=[k], label="f_text/%d" % k, group="f_text", need=[0]) for k in range(9)]
    for k, n in ((9, 4), (10, 8)):
        for rest in (0, 0xFFFEFDFCFBFAF9 >> 8 * (8 - n), 0x0102A5C3F1800D >> 8 * (8 - n)):
            out += [dict(h="f_text", p=[k, 1, rest, at + 1], label="f_text/%d byte %d of %x" % (k, at, rest), group="f_text/wide", need=[0]) for at in range(n)]
    return out
prop("C28", RES, ftext, lambda t: dict(tier=t, what=["all variants, all 256 byte values", "setting values and successes' lengths: each of the 4 or 8 bytes of the number symbolic, the others from 3 patterns"]), "Numbers in which several bytes vary together.")
CODES.update({130: "HTTP/2 parser reported it finished", 140: "second setting of a SETTINGS frame not reported", 141: "SETTINGS frame: header or first setting differs", 306: "state is not Finished", 318: "byte count of the reset parser differs", 918: "byte_count is not the number of bytes consumed",
  420: "decode: other outcome", 421: "decode: other text or error", 435: "query: other items without an error callback", 445: "field: other items without an error callback", 250: "a call that expects more data did not consume its slice", 251: "callback success although no callback is overridden", 252: "outcome differs with default callbacks", 253: "error differs with default callbacks", 254: "consumption differs with default callbacks", 480: "formatting failed", 481: "text lacks the name", 482: "text lacks the value",
  430: "query: other items or error", 431: "query: other text or error byte", 440: "field: other items or error", 441: "field: other text or error byte",
  701: "more items than bytes", 702: "item after an error", 703: "more than one error", 704: "text longer than the input", 705: "item after the end", 706: "error after the end", 750: "returned text is not valid UTF-8", 751: "invalid UTF-8 not reported as such", 752: "invalid UTF-8 reported with another error",
  450: "is_token", 451: "is_header_field", 452: "is_quoted_header_field", 460: "Flags::as_byte", 461: "flag query", 462: "Flags equality", 464: "FrameType query", 465: "FrameType::as_byte", 466: "FrameType round trip", 468: "ErrorCode query", 469: "ErrorCode::as_byte", 470: "ErrorCode round trip", 472: "Setting query", 473: "Setting::value", 475: "FrameFormat payload_length", 476: "FrameFormat stream_id", 477: "FrameFormat flags"})
CODES.update({k: "long item: other data total, end or count" for k in range(160, 176)})
