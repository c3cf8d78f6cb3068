"""C01, C02 : request heads"""
from vlib import enc, cuts

NAMES = [b"GET", b"HEAD", b"POST", b"PUT", b"DELETE", b"OPTIONS", b"PATCH", b"TRACE", b"CONNECT", b"G", b"GETX", b"get"]
TARGETS = [b"/", b"/index.html", b"/a/b/c.txt?x=1&y=2", b"/%20%C3%A9", b"*", b"/" + b"a" * 300, "/é".encode(), b"http://h/p", b"/a;b=c,(d)"]
FIELDS = [b"Host: localhost", b"Accept: */*", b"accept: text/html", b"ACCEPT:\ttext/plain ", b"X-Empty:", b"X-Empty2:   ", b"Connection: keep-alive, Upgrade",
          b"Upgrade: WebSocket", b"Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==", b"Cookie: a=b; c=\"d:e\"", b"X: y\r\n folded\r\n\tagain", b"X-Long: " + b"v" * 500,
          b"X-F:\r\n only folded", b"X-G: a\r\n \r\n b ", b"X-Utf: " + "é€".encode(), b"Accept-Encoding: gzip, br", b"Content-Length: 3"]


def randhead(rng):
    line = rng.choice(NAMES[:2] if rng.random() < .6 else NAMES) + b" " + rng.choice(TARGETS) + b" HTTP/" + rng.choice([b"1.1", b"1.0", b"0.9", b"2.0", b"10.123"]) + b"\r\n"
    fs = [rng.choice(FIELDS) for _ in range(rng.randrange(0, 7))]
    return line + b"".join(f + b"\r\n" for f in fs) + b"\r\n"


def mutate(rng, head):
    b = bytearray(head)
    for _ in range(rng.randrange(1, 3)):
        k = rng.randrange(len(b))
        r = rng.random()
        if r < .35:
            b[k] = rng.choice([0, 9, 10, 13, 32, 47, 58, 127, 128, 255, 40, 65, rng.randrange(256)])
        elif r < .6:
            del b[k]
            if not b:
                b = bytearray(b"x")
        elif r < .85:
            b.insert(k, rng.choice([0, 9, 10, 13, 32, 58, 127, 200, 34, 48]))
        else:
            del b[k:]
            if not b:
                b = bytearray(b"x")
    return bytes(b)


def unspecified(head):
    """heads about which the property says nothing: numbers too big for the version, nothing between the first two spaces"""
    first = head.split(b"\r\n")[0]
    if b"  " in first:
        return True
    p = first.rfind(b"HTTP/")
    digits = 0
    for ch in first[p:] if p >= 0 else b"":
        digits = digits + 1 if 48 <= ch <= 57 else 0
        if digits > 8:
            return True
    return False


LOOK = [b"accept", b"ACCEPT", b"Accept", b"connection", b"Upgrade", b"host", b"x", b"X-Empty", b"Nope", b"A", b"a", b"Accep", b"Content-Length", b"CONTENT-LENGTH"]
TEXTS = [b"upgrade", b"websocket", b"gzip", b"br", b"BR", b"zz", b"y", b"text", b"TEXT/", b"folded again", b"b"]


def flipped(rng, b):
    """the same text but for the case of some letters, or one character which is a letter only to a careless comparison"""
    b = bytearray(b)
    r = rng.random()
    if not b or r < .2:
        return bytes(b)
    if r < .6:
        return bytes(b).swapcase() if r < .4 else bytes(c ^ 32 if chr(c).isalpha() and c < 128 and rng.random() < .5 else c for c in b)
    k = rng.randrange(len(b))
    if r < .8:
        b[k] ^= 32
    elif r < .9:
        b[k] = rng.choice(b"abcxyzABCXYZ019-_~^`|!#$%&'*+.")
    elif r < .95:
        del b[k]
    else:
        b.append(rng.choice(b"ax-"))
    return bytes(b)


def namesIn(head):
    return [l.split(b":")[0] for l in head.split(b"\r\n")[1:] if b":" in l and l[:1] not in (b" ", b"\t")]


def textsIn(head):
    return [l.split(b":", 1)[1].strip() for l in head.split(b"\r\n")[1:] if b":" in l and l[:1] not in (b" ", b"\t")]


TOKEN = b"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def oddFields(rng):
    """field names and values which only differ by characters near the letters"""
    base = bytes(rng.choice(TOKEN) for _ in range(rng.randrange(1, 6)))
    fs = [flipped(rng, base) for _ in range(rng.randrange(1, 4))] + [base]
    rng.shuffle(fs)
    fs = [bytes(c for c in f if c in TOKEN) or b"a" for f in fs]
    return [f + b": " + flipped(rng, b"v`@A[{aZz^~_") for f in fs]


def emitted(c, template, mod):
    got = c.generate("HttpParserMC", "HttpParserGen_%s.cfg" % template, env={"MOD": str(mod)}, workers=4)
    return [bytes(g["head"]) for g in got]


def heads(c, mod):
    fs = [c.pool.submit(emitted, c, t, mod) for t in ("line", "fields")]
    res = []
    for f in fs:
        res += f.result()
    res = [h for h in res if h and not unspecified(h)]
    res.sort()
    return res


def c02(c):
    prog = c.compile("drv_parser")
    mcs = [c.model_check("HttpParserMC", "HttpParserMC_%s.cfg" % t, workers=3) for t in ("line", "fields")]
    hs = heads(c, 23 if c.quick else 1)
    rng = c.rng
    hs += [h for h in (randhead(rng) for _ in range(700 if c.quick else 6000)) if not unspecified(h)]
    hs += [h for h in (mutate(rng, randhead(rng)) for _ in range(1500 if c.quick else 20000)) if not unspecified(h)]
    for _ in range(250 if c.quick else 4000):
        hs.append(b"GET / HTTP/1.1\r\n" + b"".join(f + b"\r\n" for f in oddFields(rng)) + b"\r\n")
    # every byte value at every kind of place
    for v in range(256):
        for pre, post in ((b"G", b"T / HTTP/1.1\r\n\r\n"), (b"", b"ET / HTTP/1.1\r\n\r\n"), (b"GET /a", b"b HTTP/1.1\r\n\r\n"), (b"GET / HTTP/1.1\r\n", b"a: b\r\n\r\n"),
                          (b"GET / HTTP/1.1\r\nx: y\r\na", b"a: b\r\n\r\n"), (b"GET / HTTP/1.1\r\na: b", b"c\r\n\r\n"), (b"GET / HTTP/1.1\r\na:", b"c\r\n\r\n"),
                          (b"GET / HTTP/1.1\r\na: b\r\n ", b"c\r\n\r\n"), (b"GET / HTTP/1.1\r\na: b\r\n", b"c: d\r\n\r\n"), (b"GET / HTTP/1.1\r\na: b\r\n\r", b"")):
            h = pre + bytes([v]) + post
            if not unspecified(h):
                hs.append(h)
    scen, n = [], 0
    for h in hs:
        n += 1
        ops = ["new 1", "feed 1 " + enc(h)]
        ops += ["get 1 " + enc(x) for x in rng.sample(LOOK, 2)] + ["all 1 " + enc(x) for x in rng.sample(LOOK, 2)]
        here, texts = namesIn(h), [x for x in textsIn(h) if x]
        if here:
            ops += ["get 1 " + enc(flipped(rng, rng.choice(here)) or b"a") for _ in range(3)] + ["all 1 " + enc(flipped(rng, rng.choice(here)) or b"a") for _ in range(2)]
        if texts:
            for _ in range(3):
                x = rng.choice(texts)
                a = rng.randrange(len(x))
                ops.append("has 1 %s %s" % (enc(flipped(rng, rng.choice(here)) or b"a"), enc(flipped(rng, x[a:a + rng.randrange(1, 9)]) or b"a")))
        ops += ["has 1 %s %s" % (enc(rng.choice(LOOK)), enc(rng.choice(TEXTS))) for _ in range(3)]
        scen.append((n, ops))
    program = prog.result()
    c.validate("HttpParserTrace", program, scen, "grammar", label="heads")
    for f in mcs:
        f.result()
    c.extra["heads"] = len(scen)


def c01(c):
    prog = c.compile("drv_parser")
    server = c.compile("drv_server", ["-ldl"])
    mcs = [c.model_check("HttpParserMC", "HttpParserMC_%s.cfg" % t, workers=3) for t in ("line", "fields")]
    rng = c.rng
    hs = heads(c, 61 if c.quick else 5)
    rng.shuffle(hs)
    pool = hs[:900 if c.quick else 20000]
    pool += [h for h in (randhead(rng) for _ in range(500 if c.quick else 5000)) if not unspecified(h)]
    pool += [h for h in (mutate(rng, randhead(rng)) for _ in range(300 if c.quick else 5000)) if not unspecified(h)]
    rng.shuffle(pool)
    scen, n = [], 0

    def add(group):
        nonlocal n
        n += 1
        ops = []
        todo = {}
        for i, (h, mode) in enumerate(group, 1):
            ops.append("solo %d %s" % (i, enc(h)))
            todo[i] = cuts(rng, h, mode)
        started = set()
        while todo:
            i = rng.choice(list(todo))
            if i not in started:
                ops.append("new %d" % i)
                started.add(i)
            ops.append("feed %d %s" % (i, enc(todo[i].pop(0))))
            if not todo[i]:
                del todo[i]
                ops.append("end %d" % i)
        scen.append((n, ops))
    k = 0
    while k < len(pool):
        g = rng.choice([1, 2, 2, 3])
        add([(h, None) for h in pool[k:k + g]])
        k += g
    # every cut in two of some heads
    for h in ([randhead(rng) for _ in range(4 if c.quick else 40)] + [b"GET / HTTP/1.1\r\nA: b\r\n c\r\nHost:x\r\n\r\n", b"HEAD /x HTTP/1.0\r\n\r\n", b"GET /\x01 HTTP/1.1\r\n\r\n"]):
        for p in range(1, min(len(h), 120)):
            n += 1
            scen.append((n, ["solo 1 " + enc(h), "new 1", "feed 1 " + enc(h[:p]), "feed 1 " + enc(h[p:]), "end 1"]))
    # every interleaving of short pieces of two heads
    c.validate("HttpParserTrace", prog.result(), scen, "cuts", label="segmentations")
    # the same at the level of the server: each connection gets what its own bytes call for
    import g_server
    scen = []
    for i in range(160 if c.quick else 3000):
        fs = g_server.someFiles(rng)
        sub = {n: fs[n] for n in rng.sample(list(fs), 5)}
        reqs = {k: g_server.makeReq(rng, rng.choice(["ok", "ok", "ok", "up", "bad"]), sub) for k in range(1, rng.randrange(2, 6) + 1)}
        ops = g_server.fileops(sub) + ["solo %d %s" % (k, enc(r)) for k, r in reqs.items()]
        sch = g_server.interleave(rng, [["conn %d %d" % (k, k)] + ["send %d %s" % (k, enc(p)) for p in cuts(rng, r)] + ["flush %d 1000000" % k] for k, r in reqs.items()])
        scen.append((i + 1, ops + g_server.together(rng, sch, .7) + ["settle"]))
    c.validate("HttpServerTrace", server.result(), scen, "solo", label="requests received by a server")
    for f in mcs:
        f.result()


CHECKS = {"C01": c01, "C02": c02}
