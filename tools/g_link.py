"""C12..C17 : the links between applications and browser clients"""
import struct
from vlib import enc, cuts
from g_ws import frame, message, close, join, interleave, together
from g_server import bad, request, upgrade
from g_parser import mutate, randhead
from g_msg import bo, nu, st, tu, encode, number

HS = b"\x00\x01"
ALL = 1 << 24


def blob(rng, n):
    """n bytes, cheap to describe when there are many"""
    if n <= 40:
        return bytes(rng.choice([rng.randrange(256), rng.randrange(32, 127)]) for _ in range(n))
    out = bytearray(rng.randrange(32, 127) for _ in range(12))
    while len(out) < n:
        out += bytes([rng.randrange(256)]) * rng.choice([1, 2, 9, 60, 255, 256, 4000])
    out = out[:n]
    out[-1] = (out[-2] + 1) % 256
    return bytes(out)


def textof(rng, big=.05):
    r = rng.random()
    if r < big:
        return blob(rng, rng.choice([254, 255, 256, 257, 300, 4000, 8180, 8192, 30000, 65000, 65534, 65535]))
    if r < .5:
        return bytes(rng.choice(b"abcdefgh XYZ019(),;'\"<>/\\") for _ in range(rng.randrange(0, 30)))
    return blob(rng, rng.choice([0, 1, 2, 3, 7, 8, 20, 40, 100, 124, 125, 126, 127, 128]))


def callmsg(name, args, count=None, size=None):
    body = b"".join(encode(a) for a in [st(name)] + args)
    return bytes([3, (1 + len(args) if count is None else count) & 255, 0, 0]) + struct.pack("<I", len(body) if size is None else size) + body


FUNCS = [(b"n1", "d"), (b"i1", "i"), (b"u8", "u"), (b"s1", "s"), (b"b1", "b"), (b"mix", "isb"), (b"none", ""), (b"six", "bbsdsb"), (b"tup", "(ds)b"), (b"", "s"), (b"L" * 300, "d"), (b"back", "s"), (b"tell", "Cs"),
         (b"boom", "d"), (b"boomint", "d")]
GOOD = FUNCS[:11]


def whole(rng, lo, hi):
    return nu(float(rng.choice([lo, hi, 0, 1, rng.randrange(lo, hi + 1), rng.randrange(max(lo, -200), min(hi, 200) + 1)])))


def goodargs(rng, sig, big=.03):
    out, i = [], 0
    while i < len(sig):
        ch = sig[i]
        if ch == "(":
            j = sig.index(")", i)
            out.append(tu(*goodargs(rng, sig[i + 1:j], big)))
            i = j
        else:
            out.append(number(rng) if ch == "d" else whole(rng, -2 ** 31, 2 ** 31 - 1) if ch == "i" else whole(rng, 0, 255) if ch == "u" else nu(float(rng.randrange(1, 4))) if ch == "C"
                       else bo(rng.random() < .5) if ch == "b" else st(textof(rng, big)))
        i += 1
    return out


def goodcall(rng, funcs=GOOD, big=.03):
    name, sig = rng.choice(funcs)
    return callmsg(name, goodargs(rng, sig, big))


def unknown(rng):
    name = rng.choice([b"nothing", b"N1", b"n1 ", b"n", b"n10", b"i1\0", b"six6", b"M" * 300, b"L" * 299, b"L" * 301, b"mi", b"None", blob(rng, rng.choice([5, 20, 300]))])
    return callmsg(name, [rng.choice([bo(1), nu(1.), st(b"text")]) for _ in range(rng.randrange(0, 4))])


def misfit(rng):
    k = rng.randrange(8)
    if k == 0:
        return callmsg(b"i1", [nu(rng.choice([2147483648., -2147483649., 1e300, float("nan"), float("inf")]))])
    if k == 1:
        return callmsg(b"u8", [nu(rng.choice([-1., 256., 1e9]))])
    if k == 2:
        return callmsg(rng.choice([b"i1", b"n1", b"u8", b"b1", b"boom"]), [st(textof(rng, 0))])
    if k == 3:
        return callmsg(b"s1", [rng.choice([nu(1.), bo(1), tu(st(b"x"))])])
    if k == 4:
        return callmsg(b"mix", goodargs(rng, "isb")[:rng.randrange(0, 3)])
    if k == 5:
        return callmsg(b"mix", [nu(5.), st(b"kept"), st(b"not a flag")])
    if k == 6:
        return callmsg(b"tup", [rng.choice([tu(nu(1.)), tu(nu(1.), st(b"a"), bo(1)), tu(st(b"a"), nu(1.)), nu(1.), tu()]), bo(1)])
    return callmsg(b"six", [bo(1), bo(0), st(b"a"), st(b"b"), st(b"c"), bo(1)])


def missing(rng):
    name, sig = rng.choice([f for f in GOOD if f[1]])
    return callmsg(name, goodargs(rng, sig, 0)[:-1])


def broken(rng):
    """call which is truncated or whose sizes are wrong"""
    m = goodcall(rng, [f for f in GOOD if f[1]], 0)
    k = rng.randrange(4)
    if k == 0:
        return m[:rng.randrange(1, len(m))]
    if k == 1:
        return m[:4] + struct.pack("<I", rng.choice([len(m), len(m) - 7, 1 << 16, 1 << 31, (1 << 32) - 1, 1 << 30])) + m[8:]
    if k == 2:
        return m[:4] + struct.pack("<I", rng.randrange(0, len(m) - 8)) + m[8:]
    return m[:8] + bytes([5, 255, 255]) + m[10:] if rng.random() < .5 else m[:8] + bytes([rng.choice([3, 7, 9, 18, 255])]) + m[9:]


def junk(rng):
    return rng.choice([b"", b"\x00", b"\x01", b"\x01\x00", b"\x02\x01\x00\x01a", b"\x04\x01\x00\x00\x02\x00\x00\x00\x01\x01", b"\x09\x09\x09", b"\xff" * 20, b"\x02", b"\x04" * 9])


KINDS = {"run": lambda r: goodcall(r), "boom": lambda r: callmsg(r.choice([b"boom", b"boomint"]), [number(r)]), "unknown": unknown, "misfit": misfit, "missing": missing, "broken": broken, "junk": junk,
         "hs": lambda r: bytes([0, r.randrange(2)])}


def ws(rng, m, op=2):
    return b"".join(join(f) for f in message(rng, 0, m, op))


def jsname(rng):
    return rng.choice([b"f", b"go", b"a.b.c", b"alert", b"x" * 255, b"y" * 256, b"", blob(rng, rng.choice([3, 30, 254, 257, 400])).replace(b"\0", b"0")])


SIGS = ["-", "b", "d", "i", "s", "v", "p", "lit", "bb", "ss", "sb", "bs", "dsb", "sdbs", "idcf", "lh", "ul", "bbbbbb", "ssssss", "pvs", "(ds)", "()", "b(bs)b", "((sd)(b(s)))s"]


def jsop(rng, c, name=None, fresh=None, sigs=SIGS, big=.04):
    sig = rng.choice(sigs)
    flat = [x for x in sig if x not in "()-"] if sig not in ("many", "flags", "texts", "deep", "lit", "()") else {"many": ["d"], "texts": ["s"], "deep": ["d"], "()": ["b"]}.get(sig, [])
    args = []
    for x in flat:
        args.append("%d" % rng.randrange(2) if x == "b" else bytes(number(rng)["n"]).hex() if x == "d" else
                    "%d" % rng.choice([0, 1, -1, 255, 65535, 2 ** 31 - 1, -2 ** 31, 2 ** 24 + 1, rng.randrange(-2 ** 20, 2 ** 20), rng.randrange(-2 ** 31, 2 ** 31)]) if x in "ilhu" else "%d" % rng.randrange(0, 200) if x in "cf" else
                    enc(textof(rng, big).replace(b"\0", b"0") if x == "p" else textof(rng, big)))
    return "js %d %s %s %s %s" % (c, fresh or rng.choice(["new", "same"]), enc(jsname(rng) if name is None else name), sig, " ".join(args))


def scriptop(rng, c, big=.06):
    return "script %d %s" % (c, enc(textof(rng, big)))


def logop(rng, big=.03, level=None):
    t = textof(rng, big) if rng.random() > big / 3 else blob(rng, rng.choice([65536, 65537, 70000]))
    return "log %s %s" % (level or rng.choice("ewid"), enc(t))


def toolong(rng, c):
    n = rng.choice([65536, 65537, 65540, 70000, 131072, 200000])
    return rng.choice(["script %d %s" % (c, enc(blob(rng, n))), "js %d new %s s %s" % (c, enc(b"f"), enc(blob(rng, n))), "js %d same %s bs 1 %s" % (c, enc(b"f"), enc(blob(rng, n))),
                       "js %d same %s b(bs)b 1 0 %s 1" % (c, enc(b"f"), enc(blob(rng, n))), "js %d new %s b 1" % (c, enc(blob(rng, n)))])


def link(c, rng=None, simple=True):
    return ["conn %d" % c, "recv %d %s" % (c, enc(join(frame(rng, True, 2, HS))))] if simple else ["conn %d" % c]


FLUSHES = [1, 2, 3, 9, 10, 11, 50, 126, 127, 1000, ALL]


def play(rng, hist, lowlevel=.3, greet=None, logs=True):
    """a schedule of the specification against the real code"""
    ops = ["level %d" % (rng.choice([2, 3, 3]) if rng.random() > lowlevel else 4) if logs else "level 0", "greet %d" % (rng.choice([0, 0, 1, 2, 3]) if greet is None else greet)]
    names, wait, gone = {}, {}, {}

    def give(c, least=0):
        d = wait.get(c, b"")
        wait[c] = b""
        for p in cuts(rng, d) if d and rng.random() < .5 else [d]:
            if p:
                ops.append("recv %d %s" % (c, enc(p)))
    for o in hist:
        k = o[0]
        if k == "recv":
            c = o[1]
            m = join(close(rng)) if o[2] == "close" else ws(rng, b"hello", 1) if o[2] == "text" else ws(rng, KINDS[o[2]](rng))
            wait[c] = wait.get(c, b"") + m
            r = rng.random()
            if r < .55:
                give(c)
            elif r < .75 and len(wait[c]) > 1:
                n = rng.randrange(1, len(wait[c]))
                ops.append("recv %d %s" % (c, enc(wait[c][:n])))
                wait[c] = wait[c][n:]
        elif k == "log":
            ops.append(logop(rng))
        else:
            c = o[1]
            if k != "conn" and rng.random() < .7:
                give(c)
            if k == "conn":
                if gone.get(c):
                    wait[c] = b""
                else:
                    give(c)
                gone[c] = False
                names[c] = jsname(rng)
                ops.append("conn %d" % c)
            elif k == "call":
                ops.append(jsop(rng, c, names[c] if rng.random() < .7 else None) if rng.random() > .04 else toolong(rng, c))
            elif k == "script":
                ops.append(scriptop(rng, c) if rng.random() > .04 else toolong(rng, c))
            elif k == "late":
                ops.append(rng.choice([jsop, scriptop])(rng, c))
            elif k == "flush":
                ops.append("flush %d %d" % (c, rng.choice(FLUSHES)))
            else:
                gone[c] = True
                ops.append("%s %d" % (k, c))
        if rng.random() < .08:
            ops.append("flush %d %d" % (rng.randrange(1, 4), rng.choice(FLUSHES)))
    for c in sorted(wait):
        give(c)
    return ops + ["settle"]


def start(c, n, hists=True):
    prog = c.compile("drv_app")
    mcs = [c.model_check("WebFrontMC", "WebFrontMC.cfg", workers=2), c.model_check("WebFrontMC", "WebFrontMC3.cfg", workers=1), c.model_check("WebFrontMC", "WebFrontMC4.cfg", workers=1)]
    if not c.quick:
        mcs += [c.model_check("WebFrontMC", "WebFrontMC2.cfg", workers=3), c.model_check("WebFrontMC", "WebFrontMC5.cfg", workers=2)]
    got = c.generate("WebFrontMC", "WebFrontGen.cfg", simulate=max(n // 2, 4), depth=400)
    seen = {}
    for h in got:
        seen.setdefault(repr(h[:-1]), []).append(h)
    hs = [c.rng.choice(v) for v in seen.values()]
    c.rng.shuffle(hs)
    return prog, mcs, hs[:n]


class Scenarios(list):
    def add(self, ops):
        self.append((len(self) + 1, ops))


BAD = {"crash", "hang", "escape"}


def shorten(sid, ev, limit=60000):
    """the beginning of a run which is too long to be judged wholly, and the failures of the process"""
    size, out = 0, []
    for e in ev:
        size += 12 + sum(len(v) * 9 if isinstance(v, list) else 12 for v in e.values())
        if size > limit:
            return out + [x for x in ev[len(out):] if x["o"] in BAD]
        out.append(e)
    return ev


def done(c, prog, mcs, scen, aspect, label, **kw):
    kw.setdefault("prepare", shorten)
    c.validate("WebFrontTrace", prog.result(), scen, aspect, label=label, **kw)
    for m in mcs:
        m.result()


# ------------------------------------------------------------------ C12
def badframes(rng):
    k = rng.randrange(12)
    huge = rng.choice([1 << 16, 1 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 62), (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 8, (1 << 64) - 14])
    key = bytes(rng.randrange(256) for _ in range(4))
    if k == 0:
        return bytes([rng.choice([0x81, 0x82, 0x02, 0x80, 0x88, 0x89]), 0x80 | 127]) + struct.pack(">Q", huge) + key + blob(rng, rng.randrange(0, 200))
    if k == 1:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60)))
    if k == 2:
        return join(frame(rng, rng.random() < .5, 0, blob(rng, 30))) * rng.randrange(1, 4)
    if k == 3:
        return join(frame(rng, True, rng.choice([3, 4, 5, 6, 7, 11, 12, 13, 14, 15]), blob(rng, rng.choice([0, 5, 130]))))
    if k == 4:
        return bytes([rng.choice([0xf2, 0xa2, 0xc1, 0x92]), 0x83]) + key + b"abc"
    if k == 5:
        return join(frame(rng, False, 2, blob(rng, 20))) + join(frame(rng, False, 2, blob(rng, 20))) + join(frame(rng, True, 0, b"end"))
    if k == 6:
        return join(frame(rng, True, rng.choice([8, 9, 10]), blob(rng, rng.choice([126, 300, 70000]))))
    if k == 7:
        return join(frame(rng, False, rng.choice([8, 9, 10]), blob(rng, 3))) + join(frame(rng, True, 0, b"x"))
    if k == 8:
        return bytes([0x82, 127]) + struct.pack(">Q", huge) + blob(rng, 100)
    if k == 9:
        return bytes([0x82, 126]) + struct.pack(">H", rng.choice([0, 1, 125, 65535])) + blob(rng, rng.choice([0, 1, 500]))
    if k == 10:
        m = bytearray(ws(rng, goodcall(rng)))
        for _ in range(rng.randrange(1, 4)):
            m[rng.randrange(len(m))] = rng.randrange(256)
        return bytes(m)
    return join(frame(rng, True, 1, blob(rng, rng.choice([0, 1, 300, 9000]))))


def nest(n):
    return b"\x12\x01" * n


def badmessage(rng):
    """an application message which is not what it should be"""
    k = rng.randrange(14)
    if k < 3:
        return broken(rng)
    if k == 3:
        return unknown(rng)
    if k == 4:
        return misfit(rng)
    if k == 5:
        return junk(rng)
    if k == 6:
        body = encode(st(b"tup")) + nest(rng.choice([1, 5, 300, 20000])) + rng.choice([b"", b"\x03"])
        return bytes([3, 2, 0, 0]) + struct.pack("<I", len(body)) + body
    if k == 7:
        body = rng.choice([b"\x12\xff", b"\x04\xffabc", b"\x05\xff\xffab", b"\x06\xff\xff", b"\x03\x00", b"\x00", b"\x01", b""])
        return bytes([3, 1, 0, 0]) + struct.pack("<I", rng.choice([len(body), len(body) + 1, 1 << 31])) + body
    if k == 8:
        m = bytearray(goodcall(rng, FUNCS))
        for _ in range(rng.randrange(1, 5)):
            m[rng.randrange(len(m))] = rng.choice([0, 1, 3, 4, 5, 6, 18, 127, 128, 255, rng.randrange(256)])
        return bytes(m)
    if k == 9:
        return bytes([rng.randrange(256) for _ in range(rng.randrange(0, 40))])
    if k == 10:
        return bytes([3, 255, 255, 255]) + struct.pack("<I", rng.choice([0, 8, (1 << 32) - 1, (1 << 32) - 8, (1 << 32) - 7])) + blob(rng, rng.randrange(0, 30))
    if k == 11:
        return bytes([rng.choice([1, 2, 4, 5, 255])]) + blob(rng, rng.randrange(0, 30))
    if k == 12:
        return callmsg(rng.choice(FUNCS)[0], [{"k": "u"}, ex_(rng), nu(1.)][:rng.randrange(1, 4)])
    return goodcall(rng, FUNCS)


def ex_(rng):
    return {"k": "e", "r": blob(rng, rng.choice([0, 3, 300]))}


def badhttp(rng):
    k = rng.randrange(9)
    if k == 0:
        return bad(rng)
    if k in (1, 2):
        return mutate(rng, randhead(rng))
    if k == 3:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 300)))
    if k == 4:
        return b"GET /" + b"a" * rng.choice([100, 4000, 8000, 8192, 9000, 20000, 70000]) + rng.choice([b" HTTP/1.1\r\n\r\n", b""])
    if k == 5:
        return b"GET / HTTP/1.1\r\n" + b"h: v\r\n" * rng.choice([100, 1500, 8000]) + rng.choice([b"\r\n", b""])
    if k == 6:
        t = rng.choice([b"/%", b"/%4", b"/%zz", b"/../../etc/passwd", b"/%2e%2e/%2e%2e/x", b"//", b"/..", b"*", b"http://[::1]:99999/", b"/" + b"%41" * 3000, b"/\xff\xfe", b"/%00", b"/a%00.js", b"?", b"/.." * 500])
        return request(rng, rng.choice([b"GET", b"HEAD", b"POST", b"get", b"X" * 5000]), t)
    if k == 7:
        return upgrade(rng, rng.choice([b"/", b"/x"]), key=rng.choice([None, b"", b"=", b"x" * 5000, b"\xff" * 24])) + badframes(rng)
    u = bytearray(upgrade(rng))
    for _ in range(rng.randrange(1, 4)):
        u[rng.randrange(len(u))] = rng.randrange(256)
    return bytes(u)


GETS = [(1, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"), (2, b"GET /nothing.html HTTP/1.1\r\n\r\n"), (3, b"HEAD / HTTP/1.1\r\n\r\n"), (4, b"GET /favicon.ico HTTP/1.1\r\n\r\n"), (5, b"POST / HTTP/1.1\r\n\r\n")]


def witness(rng, c):
    """what the others do, as simple as possible"""
    k = rng.randrange(6)
    if k == 0:
        return ["recv %d %s" % (c, enc(join(frame(rng, True, 2, callmsg(b"i1", [nu(float(rng.randrange(100)))])))))]
    if k == 1:
        return ["recv %d %s" % (c, enc(join(frame(rng, True, 2, callmsg(b"s1", [st(b"abc%d" % rng.randrange(100))])))))]
    if k == 2:
        return ["js %d new %s s %s" % (c, enc(b"show"), enc(b"t%d" % rng.randrange(100)))]
    if k == 3:
        return ["script %d %s" % (c, enc(b"run(%d)" % rng.randrange(100)))]
    g = rng.choice(GETS)
    return ["get %d %s" % (g[0], enc(g[1]))]


def c12(c):
    prog, mcs, hs = start(c, 4)
    rng = c.rng
    scen = Scenarios()
    for i in range(700 if c.quick else 12000):
        attacks = []
        for a in range(rng.choice([1, 1, 2, 3])):
            id = 4 + a
            kind = rng.choice(["http", "ws", "app", "app", "ws"])
            ops = ["raw %d" % id if kind == "http" else "hostile %d" % id]
            if kind == "http":
                data = b"".join(badhttp(rng) for _ in range(rng.choice([1, 1, 2, 4])))
            elif kind == "ws":
                data = b"".join(badframes(rng) for _ in range(rng.randrange(1, 6)))
            else:
                data = (ws(rng, HS) if rng.random() < .8 else b"") + b"".join(ws(rng, badmessage(rng), rng.choice([2, 2, 2, 1])) for _ in range(rng.randrange(1, 8)))
            for p in cuts(rng, data, rng.choice(["one", "few", "two", "sizes"])):
                ops.append("recv %d %s" % (id, enc(p)))
                if rng.random() < .2:
                    ops.append(rng.choice(["flush %d 10" % id, "js %d new 66 s 4142" % id, "script %d 4142" % id, "flush %d 100000" % id]))
            ops += rng.choice([[], ["fin %d" % id], ["reset %d" % id], ["recv %d %s" % (id, enc(join(close(rng))))], ["fin %d" % id, "reset %d" % id]])
            attacks.append(ops)
        good = link(1, rng) + (link(2, rng) if rng.random() < .4 else [])
        calm = [witness(rng, 1 + (len(good) > 2) * rng.randrange(2)) for _ in range(rng.randrange(2, 6))]
        first = [["get %d %s" % (g[0], enc(g[1]))] for g in GETS] if i % 10 == 0 else []
        ops = ["level %d" % (rng.choice([0, 0, 1, 2]) if i % 12 else 4), "greet 0"] + [o for g in first for o in g] + good + interleave(rng, attacks + [sum(calm, [])]) + sum(witness(rng, 1) and [witness(rng, 1) for _ in range(3)], []) + ["settle"]
        scen.add(ops)
    # requests whose answer is known, after the attacks of the same run
    hostile = {"raw", "hostile"}

    def control(ops):
        ids = {o.split()[1] for o in ops if o.split()[0] in hostile}
        return [o for o in ops if not (o.split()[0] in ("raw", "hostile", "recv", "flush", "js", "script", "fin", "reset", "push", "take") and o.split()[1] in ids)]
    done(c, prog, mcs, scen, "hostile", "hostile peers", control=control)


# ------------------------------------------------------------------ C13
def c13(c):
    prog, mcs, hs = start(c, 300 if c.quick else 5000)
    rng = c.rng
    scen = Scenarios()
    for h in hs:
        scen.add(play(rng, h))
    # handshakes repeated, at any moment, cut anywhere; several clients
    for i in range(250 if c.quick else 5000):
        seqs = []
        for id in range(1, rng.choice([1, 2, 3, 5]) + 1):
            data = ws(rng, HS) if rng.random() < .9 else b""
            ops = ["conn %d" % id]
            for _ in range(rng.randrange(0, 5)):
                data += ws(rng, bytes([0, rng.randrange(2)])) if rng.random() < .5 else ws(rng, rng.choice([goodcall, unknown])(rng)) if data else ws(rng, b"text", 1)
            for p in cuts(rng, data):
                if p:
                    ops.append("recv %d %s" % (id, enc(p)))
                if rng.random() < .3:
                    ops.append(rng.choice([jsop(rng, id), scriptop(rng, id, 0), "flush %d %d" % (id, rng.choice(FLUSHES)), logop(rng, 0)]))
            seqs.append(ops + [rng.choice([jsop, scriptop])(rng, id) for _ in range(rng.randrange(0, 3))])
        scen.add(["level %d" % rng.choice([0, 2, 4]), "greet %d" % rng.randrange(4)] + together(rng, interleave(rng, seqs), .4) + ["settle"])
    # an application which does not wait for its UIs
    for i in range(30 if c.quick else 400):
        seqs = []
        for id in range(1, rng.choice([1, 2, 3]) + 1):
            data = ws(rng, HS) + b"".join(ws(rng, rng.choice([goodcall, unknown, lambda r: HS])(rng)) for _ in range(rng.randrange(0, 4)))
            seqs.append(["conn %d" % id] + ["recv %d %s" % (id, enc(p)) for p in cuts(rng, data) if p] + ["flush %d %d" % (id, rng.choice(FLUSHES))])
        scen.add(["mute", "level %d" % rng.choice([0, 2, 4])] + interleave(rng, seqs) + ["settle"])
    # what is sent during the start and as an effect of what another client sends
    for greet in range(4):
        for n in (1, 2, 3):
            ops = ["level 4", "greet %d" % greet] + ["conn %d" % k for k in range(1, n + 1)]
            for k in range(1, n + 1):
                ops += ["recv %d %s" % (k, enc(ws(rng, HS))), rng.choice([scriptop, jsop])(rng, k)]
            for k in range(1, n + 1):
                for other in range(1, n + 1):
                    ops.append("recv %d %s" % (k, enc(ws(rng, callmsg(b"tell", [nu(float(other)), st(b"from %d" % k)])))))
            scen.add(ops + ["settle"])
    done(c, prog, mcs, scen, "link", "links")


# ------------------------------------------------------------------ C14
def c14(c):
    prog, mcs, hs = start(c, 300 if c.quick else 5000)
    rng = c.rng
    scen = Scenarios()
    for h in hs:
        scen.add(play(rng, h, 0, logs=False))
    for i in range(350 if c.quick else 7000):
        seqs = []
        for id in range(1, rng.choice([1, 1, 2, 3]) + 1):
            data = b""
            for _ in range(rng.randrange(1, 12)):
                r = rng.random()
                m = goodcall(rng, FUNCS) if r < .62 else unknown(rng) if r < .72 else misfit(rng) if r < .82 else missing(rng) if r < .86 else broken(rng) if r < .92 else HS if r < .95 else junk(rng)
                data += ws(rng, m)
            seqs.append(["recv %d %s" % (id, enc(p)) for p in cuts(rng, data, rng.choice(["one", "one", "few", "two", "sizes", "bytes"]))])
        scen.add(["level 0", "greet 0"] + [o for id in range(1, len(seqs) + 1) for o in link(id, rng)] + together(rng, interleave(rng, seqs), .5) + ["settle"])
    # every function, with its edges
    for name, sig in FUNCS:
        for _ in range(12 if c.quick else 200):
            scen.add(["level 0", "greet 0"] + link(1, rng) + ["recv 1 " + enc(b"".join(ws(rng, callmsg(name, goodargs(rng, sig, .1))) for _ in range(3))), "settle"])
    # long arguments over several reads and frames
    for n in (255, 256, 8170, 8192, 16384, 65534, 65535):
        d = ws(rng, callmsg(b"s1", [st(blob(rng, n))])) + ws(rng, callmsg(b"mix", [nu(-1.), st(blob(rng, n)), bo(1)]))
        scen.add(["level 0", "greet 0"] + link(1, rng) + ["recv 1 " + enc(p) for p in cuts(rng, d, rng.choice(["few", "one", "two"]))] + ["recv 1 " + enc(ws(rng, callmsg(b"none", []))), "settle"])
    done(c, prog, mcs, scen, "calls", "calls of C++ functions")


# ------------------------------------------------------------------ C15
def c15(c):
    prog, mcs, hs = start(c, 200 if c.quick else 4000)
    rng = c.rng
    scen = Scenarios()
    for h in hs:
        if any(o[0] == "call" for o in h):
            scen.add(play(rng, h, 0, logs=False))
    # sequences of calls, mostly through the same objects
    for i in range(350 if c.quick else 8000):
        n = rng.choice([1, 1, 2, 3])
        ops = ["level 0", "greet 0"] + [o for id in range(1, n + 1) for o in link(id, rng)]
        names = [jsname(rng) for _ in range(2)]
        for _ in range(rng.randrange(1, 16)):
            id = rng.randrange(1, n + 1)
            r = rng.random()
            if r < .04:
                ops.append(toolong(rng, id))
            elif r < .08:
                ops.append(jsop(rng, id, rng.choice(names), sigs=["many", "flags", "texts", "deep"]))
            elif r < .8:
                ops.append(jsop(rng, id, rng.choice(names), rng.choice(["same", "same", "same", "new"])))
            elif r < .88:
                ops.append(scriptop(rng, id, .02))
            else:
                ops.append("flush %d %d" % (id, rng.choice(FLUSHES)))
        scen.add(ops + ["settle"])
    # every pair of signatures one after the other
    for a in SIGS + ["many", "flags"]:
        for b in SIGS:
            if c.quick and rng.random() < .6:
                continue
            scen.add(["level 0", "greet 0"] + link(1, rng) + [jsop(rng, 1, b"f", "same", [a], .01), jsop(rng, 1, b"f", "same", [b], .01), jsop(rng, 1, b"f", "same", [a], .01), "settle"])
    # errors, then valid calls
    for t in range(30 if c.quick else 300):
        scen.add(["level 0", "greet 0"] + link(1, rng) + [jsop(rng, 1, b"f", "same", big=0), toolong(rng, 1), jsop(rng, 1, b"f", "same", big=0), jsop(rng, 1, b"f", "same", ["deep"]), jsop(rng, 1, b"f", "same"), "settle"])
    for n in (0, 1, 254, 255, 256, 257, 65534, 65535):
        for sig in ("s", "v", "p", "sb", "bs"):
            t = enc(blob(rng, n).replace(b"\0", b"0"))
            args = {"s": t, "v": t, "p": t, "sb": t + " 1", "bs": "0 " + t}[sig]
            scen.add(["level 0", "greet 0"] + link(1, rng) + ["js 1 same 66 %s %s" % (sig, args), "js 1 same 66 %s %s" % (sig, args), "js 1 new %s -" % enc(blob(rng, n)), "settle"])
    done(c, prog, mcs, scen, "js", "calls of JavaScript functions")


# ------------------------------------------------------------------ C16
def c16(c):
    prog, mcs, hs = start(c, 300 if c.quick else 5000)
    rng = c.rng
    scen = Scenarios()
    for h in hs:
        scen.add(play(rng, h))
    for n in [0, 1, 2, 3, 120, 121, 122, 124, 125, 126, 127, 255, 256, 257, 511, 512, 513, 8185, 8192, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65540, 131071, 131072, 200000]:
        t = blob(rng, n)
        scen.add(["level 3", "greet 0"] + link(1, rng) + link(2, rng) + ["script 1 " + enc(t), "script 2 61", "log i " + enc(t), "script 1 62", "log e 63", "settle"])
        scen.add(["level 4", "greet 1"] + link(1, rng) + ["log d " + enc(t), "flush 1 7", "script 1 " + enc(t), "settle"])
    for i in range(250 if c.quick else 6000):
        n = rng.choice([1, 2, 3, 4])
        ops = ["level %d" % rng.choice([1, 2, 3, 4, 4]), "greet %d" % rng.randrange(4)]
        linked = []
        for id in range(1, n + 1):
            ops += link(id, rng)
            linked.append(id)
            for _ in range(rng.randrange(0, 8)):
                k = rng.choice(linked)
                r = rng.random()
                ops.append(scriptop(rng, k) if r < .35 else jsop(rng, k) if r < .5 else logop(rng) if r < .8 else "flush %d %d" % (k, rng.choice(FLUSHES)) if r < .95 else toolong(rng, k))
                if rng.random() < .04:
                    ops.append("level %d" % rng.randrange(5))
            if rng.random() < .25 and len(linked) > 1:
                k = linked.pop(rng.randrange(len(linked)))
                ops.append(rng.choice(["fin %d", "reset %d", "recv %%d %s" % enc(join(close(rng)))]) % k)
                ops += [logop(rng, 0), scriptop(rng, rng.choice(linked))]
        scen.add(ops + ["settle"])
    done(c, prog, mcs, scen, "text", "scripts and log lines")


# ------------------------------------------------------------------ C17
def c17(c):
    prog, mcs, hs = start(c, 400 if c.quick else 6000)
    rng = c.rng
    scen = Scenarios()
    for h in hs:
        scen.add(play(rng, h, .15))
    ends = ["fin %d", "reset %d", "recv %%d %s" % enc(join(close(rng))), "recv %%d %s" % enc(ws(rng, goodcall(rng)) + join(close(rng)) + ws(rng, goodcall(rng)))]
    # every end, at every moment of a short life
    for greet in (0, 3):
        for end in ends:
            life = ["recv 1 " + enc(ws(rng, HS)), jsop(rng, 1), "flush 1 5", scriptop(rng, 1), "log i 6869", "recv 1 " + enc(ws(rng, goodcall(rng))[:9]), "flush 1 100", jsop(rng, 1, big=.5), "flush 1 1000"]
            for i in range(len(life) + 1):
                late = [rng.choice([jsop(rng, 1), scriptop(rng, 1), "log e 6c617465", "flush 1 10", "recv 1 " + enc(ws(rng, goodcall(rng)))]) for _ in range(3)]
                again = ["reset 1"] + link(1, rng) + [scriptop(rng, 1), "log i 616761696e", jsop(rng, 1)] if rng.random() < .6 else []
                scen.add(["level %d" % rng.choice([3, 4]), "greet %d" % greet] + link(2, rng) + ["conn 1"] + life[:i] + [end % 1] + late + [jsop(rng, 2), "log i 6f74686572"] + (["settle"] if rng.random() < .5 else []) + again + ["settle"])
    # clients which follow each other
    for i in range(150 if c.quick else 3000):
        ops = ["level %d" % rng.choice([3, 3, 4]), "greet %d" % rng.randrange(4)]
        up = {}
        for _ in range(rng.randrange(6, 24)):
            id = rng.randrange(1, 5)
            if id not in up:
                ops += link(id, rng)
                up[id] = 1
            else:
                r = rng.random()
                if r < .35:
                    ops.append(rng.choice(ends) % id)
                    ops += [rng.choice([jsop, scriptop])(rng, id)] if rng.random() < .4 else []
                    if ops[-1].startswith("js") or rng.random() < .5:
                        ops.append("settle")
                    if "settle" == ops[-1]:
                        del up[id]
                    else:
                        ops.append("settle")
                        del up[id]
                elif r < .6:
                    ops.append(logop(rng, .01))
                else:
                    ops.append(rng.choice([jsop, scriptop])(rng, id))
        scen.add(ops + ["settle"])
    # any number of them
    hs1 = enc(ws(rng, HS))
    many = enc(ws(rng, HS) + b"".join(ws(rng, goodcall(rng)) for _ in range(5)) + ws(rng, callmsg(b"back", [st(b"x" * 300)])))
    for kind in ("settled", "midwrite", "fin", "reset"):
        for data in (hs1, many, "-"):
            scen.add(["level %d" % rng.choice([0, 4]), "greet 0"] + link(1, rng) + link(2, rng) + ["cycle %d %s %s" % (60 if c.quick else 600, kind, data), "log e 61", jsop(rng, 1), jsop(rng, 2), "settle"])
    # more clients than 16 bits can count: those who are lost remain lost
    scen.add(["level 0", "greet 0"] + link(1, rng) + link(2, rng) + ["reset 1", "patience 250", "cycle 65534 fin " + hs1, "conn 3", "recv 3 " + hs1, scriptop(rng, 1), "flush 3 100000", "conn 4", "recv 4 " + hs1, scriptop(rng, 1), scriptop(rng, 3), "settle"])
    done(c, prog, mcs, scen, "lost", "lost clients")


CHECKS = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17}
