"""C18: parameters of messages. Values and types have the JSON form of spec/Messages.tla."""
import struct
from vlib import enc, unrle

bo = lambda x: {"k": "b", "v": int(x)}
nu = lambda d: {"k": "n", "n": list(struct.pack("<d", d))}
st = lambda b: {"k": "s", "r": b}          # texts are bytes here
ex = lambda b: {"k": "e", "r": b}
tu = lambda *l: {"k": "t", "l": list(l)}


def text(r):
    return r if isinstance(r, bytes) else unrle(r)


def encode(v):
    k = v["k"]
    if k == "b":
        return b"\x01" if v["v"] else b"\x02"
    if k == "n":
        return b"\x03" + bytes(v["n"])
    if k == "s":
        s = text(v["r"])
        return (b"\x04" + bytes([len(s)]) if len(s) < 256 else b"\x05" + struct.pack("<H", len(s))) + s
    if k == "e":
        s = text(v["r"])
        return b"\x06" + struct.pack("<H", len(s)) + s
    if k == "u":
        return b"\x00"
    return b"\x12" + bytes([len(v["l"])]) + b"".join(encode(x) for x in v["l"])


def word(v, rng=None):
    """form of a value for drv_msg"""
    k = v["k"]
    if k == "b":
        return "b%d" % v["v"]
    if k == "n":
        return "d" + bytes(v["n"]).hex()
    if k == "s":
        return "s" + enc(text(v["r"]))
    if k == "e":
        return "e" + enc(text(v["r"]))
    return "(" + ";".join(word(x) for x in v["l"]) + ")"


def shape(t):
    if t["t"] != "t":
        return t["t"]
    return "(" + "".join(shape(x) for x in t["l"]) + ")"


def typeof(v):
    k = v["k"]
    return {"t": "t", "l": [typeof(x) for x in v["l"]]} if k == "t" else {"t": {"b": "b", "n": "d", "s": "s", "e": "s"}[k]}


EDGES = [0., -0., 1., -1., .5, -.5, .999999, 1.5, -1.5, 2.5, 126., 127., 127.5, 128., -128., -128.9, -129., 254., 255., 255.9, 256., 32767., 32767.7, 32768., -32768., -32768.5, -32769., 65535., 65535.5, 65536.,
         2147483647., 2147483647.5, 2147483648., -2147483648., -2147483648.5, -2147483649., 4294967295., 4294967295.7, 4294967296., 9007199254740993., 9223372036854774784., 9223372036854775808., -9223372036854775808.,
         -9223372036854777856., 1e300, -1e300, 5e-324, 1e-10, float("inf"), float("-inf"), float("nan"), 3.14159, 1e15 + .5, 4503599627370497.5]
INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64"]


def number(rng):
    r = rng.random()
    if r < .4:
        return nu(rng.choice(EDGES))
    if r < .6:
        return nu(float(rng.randrange(-300, 300)))
    if r < .8:
        return nu(rng.randrange(-2 ** rng.randrange(1, 66), 2 ** rng.randrange(1, 66)) / rng.choice([1, 1, 2, 8]))
    return {"k": "n", "n": [rng.randrange(256) for _ in range(8)]}


def content(rng, n):
    if n > 2000 or rng.random() < .1:
        a = rng.randrange(1, n) if n > 1 else 0
        return bytes([rng.randrange(256)]) * a + bytes([rng.choice([0, 18, 255, 97])]) * (n - a)
    return bytes(rng.choice([rng.randrange(256), rng.randrange(32, 127), rng.randrange(7)]) for _ in range(n))


def size(rng, big=.05):
    return rng.choice([255, 256, 257, 1000, 65534, 65535]) if rng.random() < big else rng.choice([0, 1, 2, 3, 5, 9, 20, 126, 254, 255, 256]) if rng.random() < .5 else rng.randrange(12)


def scalar(rng, big=.03):
    r = rng.random()
    return bo(rng.random() < .5) if r < .35 else number(rng) if r < .65 else st(content(rng, size(rng, big)))


b, d, s = bo, nu, st
SHAPES = ["()", "(b)", "(d)", "(s)", "(())", "(bbb)", "(isd)", "(s(bd))", "((ss)(i)b)", "(((d)))", "(cld)", "(b(b(bs))b)", "((sss)(sss))", "(" + "i" * 12 + ")"]
DECODABLE = set(SHAPES)


def ofshape(rng, sh, big=.02):
    """(value, word) of a shape of the catalogue of the driver"""
    pos = [0]

    def go():
        c = sh[pos[0]]
        pos[0] += 1
        if c == "(":
            l = []
            while sh[pos[0]] != ")":
                l.append(go())
            pos[0] += 1
            return tu(*[v for v, _ in l]), "(" + ";".join(w for _, w in l) + ")"
        if c == "b":
            v = bo(rng.random() < .5)
        elif c == "d":
            v = number(rng)
        elif c in "icl":
            n = rng.choice([0, 1, 7, 255]) if c == "c" else rng.choice([0, -1, 5, 2147483647, -2147483648, 77]) if c == "i" else rng.choice([0, -1, 1 << 40, -(1 << 52)])
            return nu(float(n)), "%s%d" % (c, n)
        else:
            v = st(content(rng, size(rng, big)))
        return v, word(v)
    return go()


def types_of(sh):
    pos = [0]
    names = {"i": "i32", "c": "u8", "l": "i64"}

    def go():
        c = sh[pos[0]]
        pos[0] += 1
        if c == "(":
            l = []
            while sh[pos[0]] != ")":
                l.append(go())
            pos[0] += 1
            return l
        return c
    return sh


def c18(c):
    prog = c.compile("drv_msg")
    mc = c.model_check("MessagesMC", "MessagesMC.cfg", workers=2)
    rng = c.rng
    scen = []

    def add(*ops):
        scen.append((len(scen) + 1, list(ops)))
    got = c.generate("MessagesMC", "MessagesMC.cfg", env={"MODE": "gen"}, workers=4)
    rng.shuffle(got)
    for g in got[:len(got) if not c.quick else 900]:
        data = b"".join(encode(v) for v in g["vals"])
        types = " ".join(shape(t) for t in g["types"])
        ops = ["dec %s %s" % (enc(data), types), "enc " + " ".join(word(v) for v in g["vals"])]
        if len(data) < 80:
            ops += ["dec %s %s" % (enc(data[:i]), types) for i in range(len(data))]
        else:
            ops += ["dec %s %s" % (enc(data[:i]), types) for i in (1, 2, 3, 4, 100, len(data) - 1)]
        add(*ops)
    # numbers at the edges of the integral types
    for e in EDGES:
        add(*["dec %s %s" % (enc(encode(nu(e)) + b"\x01"), t + " b") for t in INTS + ["d", "s"]])
    for _ in range(60 if c.quick else 3000):
        add(*["dec %s %s" % (enc(encode(number(rng)) + encode(number(rng))), " ".join(rng.choice(INTS + ["d"]) for _ in range(2))) for _ in range(6)])
    # random lists
    for _ in range(250 if c.quick else 8000):
        vals, words, shapes = [], [], []
        for _ in range(rng.randrange(0, 7)):
            r = rng.random()
            if r < .35:
                sh = rng.choice(SHAPES)
                v, w = ofshape(rng, sh)
                vals.append(v), words.append(w), shapes.append(sh)
            elif r < .45:
                t = content(rng, size(rng)).replace(b"\0", b"x")
                k = rng.choice("pe")
                vals.append(st(t) if k == "p" else ex(t)), words.append(k + enc(t)), shapes.append("s")
            elif r < .52:
                t = content(rng, size(rng))
                vals.append(st(t)), words.append("v" + enc(t)), shapes.append("s")
            elif r < .58:
                f = rng.choice([0., -.25, 3.5, 1e10])
                f = struct.unpack("<f", struct.pack("<f", f))[0]
                vals.append(nu(f)), words.append("f" + struct.pack("<f", f).hex()), shapes.append("d")
            else:
                v = scalar(rng)
                vals.append(v), words.append(word(v)), shapes.append(shape(typeof(v)))
        data = b"".join(encode(v) for v in vals)
        ops = ["enc " + " ".join(words)] if words else []
        for _ in range(3):
            k = rng.randrange(len(data) + 1)
            ops.append("dec %s %s" % (enc(data[:k]), " ".join(shapes)))
        for _ in range(3):   # other types, other number of parameters, other bytes
            sh = list(shapes)
            if sh:
                sh[rng.randrange(len(sh))] = rng.choice(SHAPES + INTS + ["b", "d", "s"])
            ops.append("dec %s %s" % (enc(data), " ".join(sh + ["b"] * rng.randrange(2))))
            m = bytearray(data)
            if m:
                m[rng.randrange(len(m))] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 18, 19, 255, rng.randrange(256)])
            ops.append("dec %s %s" % (enc(bytes(m)), " ".join(shapes)))
        add(*ops)
    # large ones
    for n in (255, 256, 65535):
        add("enc s%s b1 s%s" % (enc(b"x" * n), enc(b"y" * n)), "enc p%s e%s" % (enc(b"x" * n), enc(b"z" * n)), "enc v%s b0" % enc(b"q" * n))
    for n in (65536, 65537, 70000, 131072):
        for k in "svp":
            add("enc b1 %s%s" % (k, enc(b"x" * n)), "enc %s%s b1" % (k, enc(b"x" * n)))
    for n in (1, 100, 250, 253, 254, 255):
        add("enc " + " ".join("d" + bytes(number(rng)["n"]).hex() for _ in range(n)), "enc " + " ".join("b%d" % (i % 2) for i in range(n)), "enc " + " ".join("s61" for i in range(n)))
        add("enc " + " ".join("s" + enc(content(rng, 256)) for i in range(n)))
    for n in (256, 257, 300, 600, 2296):
        add("enc " + " ".join("d" + bytes(number(rng)["n"]).hex() for _ in range(n)), "enc " + " ".join("b%d" % (i % 2) for i in range(n)), "enc " + " ".join("(d%s)" % bytes(number(rng)["n"]).hex() for i in range(n)))
    add("enc (" + ";".join("b%d" % (i % 2) for i in range(200)) + ")", "enc (" + ";".join("b%d" % (i % 3 % 2) for i in range(200)) + ") b1")
    # whole messages, cut anywhere and with any announced size
    for _ in range(150 if c.quick else 4000):
        body = encode(st(content(rng, rng.choice([0, 1, 4, 255, 256, 300])))) + b"".join(encode(scalar(rng, 0)) for _ in range(rng.randrange(3)))
        if rng.random() < .3:
            body = rng.choice([b"", b"\x03" + bytes(8), b"\x01", b"\x06\x02\x00ab\x01", b"\x05\xff\xffa", b"\x04\x09abc", b"\x12\x00", b"\x07\x01a", b"\x06\x01", b"\x04"])
        n = max(0, len(body) + rng.choice([0, 0, 0, 0, 1, -1, 5, 1 << 31, (1 << 32) - 1 - len(body), -len(body)]))
        m = bytes([rng.choice([3, 3, 4]), rng.randrange(256), 0, 0]) + struct.pack("<I", n) + body
        k = rng.choice([len(m)] * 3 + list(range(0, min(len(m), 12))) + [len(m) - 1])
        t = content(rng, rng.choice([0, 1, 255, 256, 300]))
        tm = bytes([2, 0]) + struct.pack(">H", max(0, len(t) + rng.choice([0, 0, 1, -1, 256]))) + t
        add("cast %s %s" % (rng.choice(["call", "ret"]), enc(m[:k])), "cast text " + enc(tm[:rng.choice([len(tm), len(tm), 0, 1, 2, 3, 4, 5])]), "cast hs " + enc(bytes([0, rng.randrange(256)] + [1] * rng.randrange(3))[:rng.randrange(4)]))
    c.validate("MessagesTrace", prog.result(), scen, label="parameters")
    mc.result()


CHECKS = {"C18": c18}
