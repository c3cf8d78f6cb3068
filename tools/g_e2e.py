"""C25 : the embedded client, executed by a JavaScript engine, and real applications. C28 : the real network provider"""
import json, os, struct
import vlib
from vlib import enc
from g_msg import encode, bo, nu, st, tu, number
from g_link import GOOD, FUNCS, SIGS, Scenarios, whole

SIGNS = ["a", "Z", "0", " ", "\n", "\0", "\x7f", "\x80", "é", "ÿ", "Ā", "߿", "ࠀ", "€", "￿", "\ufffd", "𐀀", "😀", "\U0010ffff", "\u2028", "e\u0301", "א", "\"", "'", "\\", "<", "&", "%", "{}", "\ufeff"]


def utext(rng, big=.06):
    """a Unicode text, in UTF-8, whose length is often next to a limit of the format"""
    r = rng.random()
    if r < .15:
        return b""
    if r < .6:
        t = "".join(rng.choice(SIGNS) for _ in range(rng.randrange(1, 12))).encode()
    else:
        n = rng.choice([1, 7, 8, 9, 120, 124, 125, 126, 127, 128, 253, 254, 255, 256, 257, 258, 300] + ([4000, 32767, 32768, 65000, 65533, 65534, 65535] if rng.random() < big * 4 else []))
        t = b""
        while len(t) < min(n, 20):
            t += rng.choice(SIGNS[:20]).encode() * rng.choice([1, 1, 2])
        while len(t) < n:
            t += rng.choice([b"a", b"~", b"0", b"\x01"]) * rng.choice([20, 60, 100, 1000 if n > 1000 else 3]) + rng.choice(SIGNS[:20]).encode()
        t = t[:n].decode("utf-8", "ignore").encode()
        t += b"." * (n - len(t))
    return b"?" + t if t.startswith(b"\xef\xbb\xbf") else t


def num(rng):
    while True:
        v = number(rng)
        d = struct.unpack("<d", bytes(v["n"]))[0]
        if d == d:
            return v


def goodargs(rng, sig, big=.06):
    out, i = [], 0
    while i < len(sig):
        ch = sig[i]
        if ch == "(":
            j = sig.index(")", i)
            out.append(tu(*goodargs(rng, sig[i + 1:j], big)))
            i = j
        else:
            out.append(num(rng) if ch == "d" else whole(rng, -2 ** 31, 2 ** 31 - 1) if ch == "i" else whole(rng, 0, 255) if ch == "u" else nu(float(rng.randrange(1, 3))) if ch == "C"
                       else bo(rng.random() < .5) if ch == "b" else st(utext(rng, big)))
        i += 1
    return out


def flat(rng):
    return rng.choice([bo(rng.random() < .5), num(rng), st(utext(rng, .02))])


def anyvalue(rng):
    return flat(rng) if rng.random() < .75 else tu(*[flat(rng) for _ in range(rng.choice([0, 1, 2, 3, 9]))])


def form(v):
    """of a value for e2e.js"""
    def runs(b):
        out = []
        for x in b:
            if out and out[-1][0] == x:
                out[-1][1] += 1
            else:
                out.append([x, 1])
        return out

    def f(x):
        return {"k": "s", "r": runs(x["r"])} if x["k"] == "s" else {"k": "t", "l": [f(y) for y in x["l"]]} if x["k"] == "t" else x
    return json.dumps(f(v), separators=(",", ":")).encode().hex()


def cppop(rng, p, kind):
    if kind == "good":
        name, sig = rng.choice(FUNCS if rng.random() < .8 else [(b"tell", "Cs"), (b"back", "s"), (b"mix", "isb"), (b"tup", "(ds)b")])
        args = goodargs(rng, sig)
    elif kind == "unknown":
        name, args = rng.choice([b"nothing", b"n1 ", b"N1", "né".encode(), b"n", utext(rng, 0)]), [anyvalue(rng) for _ in range(rng.randrange(0, 5))]
    else:
        name, sig = rng.choice(FUNCS)
        args = goodargs(rng, sig, .02)
        r = rng.random()
        if r < .15 and args:
            args = args[:-1]
        elif r < .25:
            args.append(anyvalue(rng))
        elif r < .35:
            args = [anyvalue(rng) for _ in range(rng.choice([0, 1, 5, 60, 254]))]
        elif r < .45 and args:
            args[rng.randrange(len(args))] = rng.choice([{"k": "o"}, {"k": "u"}, st(b"x" * rng.choice([65536, 70000]))])
        elif args:
            args[rng.randrange(len(args))] = anyvalue(rng)
    if sum(len(encode(a)) for a in args if a["k"] in "bnst" and not (a["k"] == "s" and len(a["r"]) > 65535)) > 90000:
        args = args[:1]  # the client prints its messages, whose size is therefore limited by the stack of the engine
    return "cpp %d %s %s" % (p, enc(name), " ".join(form(a) for a in args))


NAMES = [b"f", b"go", b"a.b.c", b"a.b.d", b"ns.call", "é€".encode(), b"n" * 255, b"m" * 256, b"with space", b"$", b"_", b"UP.low", b"x" * 3000]


def jsop(rng, p, names, name=None):
    if name is None:
        name = rng.choice(names) if names and rng.random() < .9 else rng.choice([b"absent", b"a.absent", b"no.such.thing"])
    if name.endswith(b"echo"):
        f, sig = rng.choice([(b"s1", "s"), (b"s1", "s"), (b"back", "s")])
        return "js %d %s %s ss %s %s" % (p, rng.choice(["new", "same"]), enc(name), enc(f), enc(utext(rng)))
    sig = rng.choice(SIGS + ["many", "flags", "texts"] if rng.random() < .1 else SIGS)
    letters = [x for x in sig if x not in "()-"] if sig not in ("many", "flags", "texts", "lit", "()") else {"many": ["d"], "texts": ["s"], "()": ["b"]}.get(sig, [])
    args = []
    for x in letters:
        args.append("%d" % rng.randrange(2) if x == "b" else bytes(num(rng)["n"]).hex() if x == "d" else
                    "%d" % rng.choice([0, 1, -1, 255, 65535, 2 ** 31 - 1, -2 ** 31, rng.randrange(-2 ** 31, 2 ** 31)]) if x in "ilhu" else "%d" % rng.randrange(0, 200) if x in "cf" else
                    enc(utext(rng).replace(b"\0", b"0") if x == "p" else utext(rng)))
    return "js %d %s %s %s %s" % (p, rng.choice(["new", "same"]), enc(name), sig, " ".join(args))


def script(rng):
    r = rng.random()
    if r < .45:
        return b"// " + utext(rng, .1)
    if r < .6:
        return utext(rng, .1)
    f, a = rng.choice([(b"s1", b"'from a script'"), (b"none", b""), (b"n1", b"1.5"), (b"b1", b"true"), (b"mix", b"-3,'\xc3\xa9',false"), (b"tup", b"[2,'two'],true")])
    return b"webFront.cppFunction('" + f + b"')(" + a + b");"


def settings(rng):
    ops = ["level %d" % (rng.choice([0, 2, 2, 2]) if rng.random() < .97 else 3), "writes 0 %d" % rng.choice([1 << 20, 1 << 20, 1, 3, 50, 1000])]
    if rng.random() < .5:
        ops += ["chunk %d" % rng.choice([1, 2, 7, 100, 8192]), "cut %d" % rng.choice([1, 2, 3, 10, 126, 500])]
    return ops


def logline(rng):
    return "log %s" % enc(utext(rng, .02))


def play(rng, hist):
    ops = settings(rng)
    names = {}
    for o in hist:
        k = o[0]
        p = o[1] if len(o) > 1 else 0
        if k == "page":
            names[p] = []
            ops += ["release", "page %d" % p]
        elif k == "leave":
            ops += ["release", "leave %d %s" % (p, rng.choice(["fin", "close", "reset"]))]
        elif k == "def":
            for n in rng.sample(NAMES, rng.randrange(1, 4)) + [b"echo", b"told", b"pong", b"deep.echo"]:
                names[p].append(n)
                ops.append("def %d %s" % (p, enc(n)))
        elif k == "cpp":
            ops.append(cppop(rng, p, o[2]))
        elif k == "js":
            ops.append(jsop(rng, p, names.get(p)))
        elif k == "script":
            t = script(rng)
            ops.append("script %d %s" % (p, enc(t if b"cppFunction" not in t else b"// " + t)))
        elif k == "log":
            ops.append(logline(rng))
        else:
            ops.append(k)
        if rng.random() < .06:
            ops.append("release")
    return ops + ["settle"]


def busy(rng):
    """a page and an application which ask each other a lot"""
    ops = settings(rng)
    pages = rng.choice([[1], [1], [1, 2], [2, 3, 4]])
    names = {}
    for p in pages:
        ops.append("page %d" % p)
        names[p] = rng.sample(NAMES, rng.randrange(2, 6)) + [b"echo", b"told", b"pong"]
        ops += ["def %d %s" % (p, enc(n)) for n in names[p]]
    for _ in range(rng.randrange(10, 40)):
        p = rng.choice(pages)
        r = rng.random()
        ops.append("hold" if r < .07 else "release" if r < .14 else "settle" if r < .2 else logline(rng) if r < .25 else "script %d %s" % (p, enc(b"// " + script(rng))) if r < .33 else
                   jsop(rng, p, names[p]) if r < .65 else jsop(rng, p, [], b"echo") if r < .7 else cppop(rng, p, rng.choice(["good", "good", "good", "unknown", "wrong"])))
    return ops + ["settle"]


def c25(c):
    n = 220 if c.quick else 2500
    prog = c.compile("drv_e2e")
    mcs = [c.model_check("InteropMC", "InteropMC.cfg", workers=2)]
    if not c.quick:
        mcs += [c.model_check("InteropMC", "InteropMC2.cfg", workers=3), c.model_check("InteropMC", "InteropMC3.cfg", workers=4)]
    hists = c.generate("InteropMC", "InteropGen.cfg", simulate=n // 2, depth=300)
    seen = {}
    for h in hists:
        seen.setdefault(repr(h[:-1]), h)
    run = c.path("e2e")
    driver = prog.result()
    with open(run, "w") as f:
        f.write('#!/bin/sh\nexec node "%s" "%s" "$@"\n' % (os.path.join(vlib.HARNESS, "e2e.js"), driver))
    os.chmod(run, 0o755)
    rng, s = c.rng, Scenarios()
    known = Scenarios()
    known.add(["page 1", "cpp 1 %s %s" % (enc(b"nest"), form(tu(tu(st(b"inner"), nu(1.)), st(b"outer")))), "settle"])
    known.add(["page 1", "def 1 66", "js 1 new 66 s efbbbf61", "settle"])
    c.validate("InteropTrace", run, known, label="known findings")
    for h in list(seen.values())[:n // 2]:
        s.add(play(rng, h))
    for _ in range(n - len(s)):
        s.add(busy(rng))
    c.validate("InteropTrace", run, s, label="pages and applications")
    for m in mcs:
        m.result()
    c.assumptions += ["a browser is represented by its interface which the embedded client uses: window, document, console, WebSocket, and the engine of node",
                      "texts are valid Unicode which does not begin with a byte order mark, numbers are not NaN"]


CHECKS = {"C25": c25}
