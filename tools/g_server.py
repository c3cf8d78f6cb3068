"""C03..C08 : the HTTP server"""
import base64
from vlib import enc, cuts

ALL = 1 << 20
EXTS = ["jsx", "htmlx", "xjs", "j", "jp", "css2", "JS", "js~", "ht", "pngx", "jso", "m", "md", "x.html.bak", "js", "mjs", "htm", "html", "jpg", "jpeg", "css", "png", "gif", "json", "pdf", "ttf", "ico", "svg", "webp", "csv", "txt", "xyz", "tar.gz", "HTML", "js.map"]


def content(rng, n):
    """n bytes whose runs differ, long ones being cheap to describe"""
    if n <= 64:
        return bytes(rng.randrange(256) for _ in range(n))
    out = bytearray(bytes(rng.randrange(256) for _ in range(24)))
    while len(out) < n:
        out += bytes([rng.randrange(256)]) * rng.choice([1, 2, 3, 7, 31, 100, 511, 512, 513, 1500])
    out = out[:n]
    out[-1] = (out[-2] + 1) % 256
    return bytes(out)


def someFiles(rng, native=False):
    fs = {}
    for n in ("index.html", "a/index.html", "a/b/c.txt", "with space.html", "é.json", "noext", ".hidden", "a/.x.css", "empty.txt", "a+b.txt"):
        fs[n] = (content(rng, 0 if n == "empty.txt" else rng.randrange(1, 90)), "")
    for e in EXTS:
        fs["f." + e] = (content(rng, rng.randrange(0, 40)), "")
    # NUL characters at the places where blocks are likely to be cut
    fs["zeros.bin"] = (bytes(2048), "")
    z = bytearray(content(rng, 2000))
    for k in (0, 255, 256, 511, 512, 1023, 1024, 1536, 1999):
        z[k] = 0
    fs["holes.bin"] = (bytes(z), "")
    fs["nuls.txt"] = (b"a\0b\0\0", "")
    for n in (1, 7, 8, 9, 15, 16, 17, 511, 512, 513, 1023, 1024, 1025, 1536, 8192, 70001):
        fs["s%d.bin" % n] = (content(rng, n), "")
    if not native:
        fs["page.html"] = (content(rng, 77), "br")
        fs["app.js"] = (content(rng, 900), "gzip")
        fs["e/index.html"] = (content(rng, 33), "br")
        fs["zero.js"] = (b"", "gzip")
    return fs


def pct(rng, name, how=None):
    out = b"/"
    for ch in name.encode():
        c = bytes([ch])
        if c.isalnum() or c in b"-_.~/":
            out += c if rng.random() < .93 or c == b"/" else b"%%%02X" % ch
        else:
            out += (b"%%%02X" if rng.random() < .5 else b"%%%02x") % ch
    return out


def fileops(fs, names=None):
    return ["file %s %s %s" % (enc(n.encode()), enc(d), enc(e.encode())) for n, (d, e) in fs.items() if names is None or n in names]


def request(rng, method, target, extra=()):
    h = method + b" " + target + b" HTTP/1.1\r\n"
    fields = list(extra)
    if rng.random() < .7:
        fields.append(b"Host: localhost")
    if rng.random() < .3:
        fields.append(b"User-Agent: x" + b"y" * rng.randrange(0, 50))
    rng.shuffle(fields)
    return h + b"".join(f + b"\r\n" for f in fields) + b"\r\n"


def wskey(rng):
    return base64.b64encode(bytes(rng.randrange(256) for _ in range(16)))


def upgrade(rng, target=b"/", key=None, **kw):
    key = key or wskey(rng)
    up = rng.choice([b"Upgrade: websocket", b"upgrade:WebSocket", b"UPGRADE: WEBSOCKET "])
    co = rng.choice([b"Connection: Upgrade", b"connection: keep-alive, Upgrade", b"Connection:upgrade", b"CONNECTION: UPGRADE, keep-alive"])
    k = rng.choice([b"Sec-WebSocket-Key: ", b"sec-websocket-key:", b"SEC-WEBSOCKET-KEY:\t"]) + key
    more = [rng.choice([b"Connection: keep-alive", b"Upgrade: h2c", b"X-Upgrade: no", b"Connection: TE"])] if rng.random() < .25 else []
    return request(rng, b"GET", target, [up, co, k, b"Sec-WebSocket-Version: 13"] + more)


def bad(rng):
    return rng.choice([b"G@T / HTTP/1.1\r\n\r\n", b"GET / HTTP/x\r\n\r\n", b"GET /\x01 HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\n bad: fold\r\n\r\n", b"GET / HTTP/1.1\r\nbad header\r\n\r\n",
                       b"\x80\x81\r\n\r\n", b" GET / HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\na: \x00\r\n\r\n"])


def goodRequest(rng, fs, method=None):
    r = rng.random()
    names = list(fs)
    if r < .62:
        n = rng.choice(names)
        t = pct(rng, n)
        if n.endswith("index.html") and rng.random() < .6:
            t = t[:-len("index.html")] if t.endswith(b"index.html") else t
        if rng.random() < .15:
            t += b"?" + rng.choice([b"", b"a=b", b"x/../y", b"q=%00&r=.html", b"a?b"])
    elif r < .75:
        t = rng.choice([b"/missing", b"/a", b"/a/b/", b"/f.css/x", b"/INDEX.HTML", b"/index.htm", b"/a/b", b"/?index.html", b"/s8.bin/"])
    elif r < .83:
        t = rng.choice([b"/../x", b"/a/../../x", b"/%2e%2e/x", b"/a/%2E%2e", b"x", b"*", b"/..", b"/a%2f..%2f..%2fx", b"/a%00b", b"index.html"])
    else:
        t = pct(rng, rng.choice(names))
    m = method or (b"GET" if rng.random() < .68 else b"HEAD" if rng.random() < .6 else rng.choice([b"POST", b"PUT", b"DELETE", b"OPTIONS", b"TRACE", b"PATCH", b"CONNECT", b"get", b"FOO"]))
    extra = []
    if rng.random() < .6:
        extra.append(rng.choice([b"Accept-Encoding: gzip, deflate, br", b"accept-encoding: br", b"Accept-Encoding: gzip", b"Accept-Encoding:GZIP,BR", b"Accept-Encoding: identity"]))
    return request(rng, m, t, extra)


def schedule(c, rng, gen, reqs, sid, slow=False, tail=True):
    """operations which play a schedule of the specification; reqs: {client: bytes}"""
    ops, pieces, queue = [], {}, {}
    for k, kind in enumerate(gen["kind"], 1):
        r = reqs[k]
        if kind == "bad":
            pieces[k] = [r, b"GET / HTTP/1.1\r\n\r\n"]
        else:
            p = rng.choice([1, len(r) - 1, len(r) - 2, len(r) - 3, rng.randrange(1, len(r))])
            pieces[k] = [r[:p], r[p:]]
        queue[k] = []
    for o in gen["ops"]:
        k = o[1]
        if o[0] == "conn":
            ops.append("conn %d %d" % (k, k))
        elif o[0] == "push":
            d = pieces[k].pop(0)
            queue[k].append(len(d))
            ops.append("push %d %s" % (k, enc(d)))
        elif o[0] == "take":
            if o[2] or not queue[k]:
                ops.append("take %d %d" % (k, ALL))
                queue[k] = []
            else:
                ops.append("take %d %d" % (k, queue[k].pop(0)))
        elif o[0] == "flush":
            ops.append("flush %d %d" % (k, ALL if o[2] and not slow else rng.choice([1, 2, 7, 20, 60, 100, 101, 102, 110, 150])))
        elif o[0] == "acceptfail":
            ops.append("acceptfail")
        else:
            ops.append("%s %d" % (o[0], k))
    if tail:
        ops.append("settle")
    return ops


def makeReq(rng, kind, fs):
    return bad(rng) if kind == "bad" else upgrade(rng, pct(rng, rng.choice(list(fs)))) if kind == "up" else goodRequest(rng, fs)


def gen1(c):
    return c.generate("HttpServerMC", "HttpServerGen1.cfg", workers=4)


def gen3(c, n, depth=140):
    got = c.generate("HttpServerMC", "HttpServerGen3.cfg", simulate=n, depth=depth)
    seen, res = set(), []
    for g in got:
        k = repr(g)
        if k not in seen:
            seen.add(k)
            res.append(g)
    return res


def drain(rng, k):
    how = rng.choice(["one", "all", "some", "bytes"])
    if how == "all":
        return ["flush %d %d" % (k, ALL)]
    if how == "bytes":
        return ["flush %d 1" % k for _ in range(rng.randrange(20, 200))]
    return ["flush %d %d" % (k, rng.choice([1, 3, 17, 80, 500, 4000])) for _ in range(rng.randrange(1, 12))]


def exchange(rng, k, req):
    ops = ["conn %d %d" % (k, k)]
    for p in cuts(rng, req):
        ops.append("send %d %s" % (k, enc(p)))
    return ops + drain(rng, k)


def interleave(rng, seqs):
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        s = rng.choice(seqs)
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            if s:
                out.append(s.pop(0))
        seqs = [x for x in seqs if x]
    return out


def together(rng, ops, chance=.5):
    """lets operations of different clients complete before the server handles any of them"""
    out, k = [], 0
    ok = ("take", "send", "flush", "push", "conn")
    while k < len(ops):
        n, seen = 0, set()
        while k + n < len(ops) and n < 4:
            o = ops[k + n].split()
            # accepts are completed one at a time
            if o[0] not in ok or o[1] in seen or (o[0] == "conn" and "conn" in seen):
                break
            seen |= {o[1], o[0]} if o[0] == "conn" else {o[1]}
            n += 1
        if n > 1 and rng.random() < chance:
            out += ["hold"] + ops[k:k + n] + ["release"]
            k += n
        else:
            out.append(ops[k])
            k += 1
    return out


SERVER = dict(flags=["-ldl"])


def start(c):
    prog = c.compile("drv_server", ["-ldl"])
    mc = c.model_check("HttpServerMC", "HttpServerMC.cfg", workers=3)
    return prog, mc


def c03(c):
    prog, mc = start(c)
    rng = c.rng
    gens = gen3(c, 260 if c.quick else 4000)
    scen = []
    for i, g in enumerate(gens[:420 if c.quick else 20000], 1):
        fs = someFiles(rng)
        names = rng.sample([n for n in fs if n != "s70001.bin"], 12) + ["index.html"]
        sub = {n: fs[n] for n in names}
        reqs = {k: makeReq(rng, kind, sub) for k, kind in enumerate(g["kind"], 1)}
        ops = fileops(sub) + ["solo %d %s" % (k, enc(r)) for k, r in reqs.items()]
        sch = schedule(c, rng, g, reqs, i, slow=rng.random() < .3)
        ops += together(rng, sch) if rng.random() < .5 else sch
        scen.append((i, ops))
    # larger crowds, arbitrary pieces
    for i in range(120 if c.quick else 3000):
        fs = someFiles(rng)
        sub = {n: fs[n] for n in rng.sample(list(fs), 10)}
        n = rng.randrange(4, 9)
        reqs = {k: makeReq(rng, rng.choice(["ok", "ok", "ok", "up", "bad"]), sub) for k in range(1, n + 1)}
        ops = fileops(sub) + ["solo %d %s" % (k, enc(r)) for k, r in reqs.items()]
        sch = interleave(rng, [exchange(rng, k, r) for k, r in reqs.items()])
        ops += (together(rng, sch, .8) if rng.random() < .6 else sch) + ["settle"]
        scen.append((100000 + i, ops))
    c.validate("HttpServerTrace", prog.result(), scen, "solo", label="concurrent exchanges")
    mc.result()


def c04(c):
    prog, mc = start(c)
    rng = c.rng
    scen, n = [], 0
    fs = someFiles(rng)
    for g in gen1(c):
        for _ in range(1 if c.quick else 6):
            n += 1
            sub = {x: fs[x] for x in rng.sample(list(fs), 6)}
            scen.append((n, fileops(sub) + schedule(c, rng, g, {1: makeReq(rng, g["kind"][0], sub)}, n, slow=rng.random() < .3)))
    for i in range(260 if c.quick else 5000):
        n += 1
        name = rng.choice(list(fs))
        sub = {name: fs[name]}
        kind = rng.random()
        r = bad(rng) if kind < .1 else upgrade(rng) if kind < .2 else request(rng, rng.choice([b"GET", b"HEAD"]), pct(rng, name), [b"Accept-Encoding: br, gzip"]) if kind < .7 else goodRequest(rng, sub)
        scen.append((n, fileops(sub) + exchange(rng, 1, r) + ["settle"]))
    c.validate("HttpServerTrace", prog.result(), scen, "frame", label="drained answers")
    mc.result()


DOTS = [b"..", b"%2e%2e", b".%2E", b"%2e.", b"%2E%2e"]
SEPS = [b"/", b"%2f", b"%2F", b"//", b"/./"]


def hostileTargets(rng, n):
    fixed = [b"/../secret.txt", b"/..", b"/../", b"/a/../../secret.txt", b"/%2e%2e/secret.txt", b"/%2e%2e%2fsecret.txt", b"/..%2fsecret.txt", b"../secret.txt", b"secret.txt",
             b"//secret.txt", b"/%2fetc%2fpasswd", b"//etc/passwd", b"///etc/passwd", b"/%2f%2fetc/passwd", b"/a/..%2f..%2fsecret.txt", b"/a%2f..%2f..%2fsecret.txt", b"/%00", b"/index.html%00.png",
             b"/%00/../secret.txt", b"/index.html%00", b"%2e%2e/secret.txt", b"%2fsecret.txt", b"%2findex.html", b"?/../secret.txt", b"?x", b"/..?x", b"/a/..?/b", b"/a/b/../../../secret.txt", b"/..;/secret.txt", b"/./../secret.txt",
             b"/a/./../../secret.txt", b"/.%2e/secret.txt", b"/a/b/c/../../../../secret.txt", b"/%2E%2E/www2/secret.txt", b"/../www2/secret.txt", b"/..%00/secret.txt", b"/index.html/../../secret.txt",
             b"/x/..", b"/a/%2e%2e", b"/a/%2e%2e/", b"a/../secret.txt", b"*", b"http://h/../secret.txt", b"%2e%2e", b"..", b".", b"%", b"/%", b"/%2", b"/%%2e%2e/secret.txt", b"/%252e%252e/secret.txt",
             b"/%2e%2e%5csecret.txt", b"/..\\secret.txt", b"/\\..\\secret.txt", b"/a/..", b"/index.html", b"/", b"/a/", b"/a/b.txt", b"/with%20space.txt", b"/a/index.html?../x", b"/a?b=/../c"]
    res = list(fixed)
    for _ in range(n):
        t = b"" if rng.random() < .08 else rng.choice([b"/", b"/", b"/", b"%2f", b"//"])
        for _ in range(rng.randrange(1, 6)):
            t += rng.choice(DOTS + [b"a", b"b", b"www", b"www2", b"secret.txt", b"index.html", b".", b"x", b"%00"]) + rng.choice(SEPS + [b""])
        res.append(t)
    return res


def c05(c):
    prog, mc = start(c)
    rng = c.rng
    scen, n = [], 0
    inside = {"index.html": (b"inside index", ""), "a/index.html": (b"inside a", ""), "a/b.txt": (b"inside b", ""), "with space.txt": (b"in", ""), "secret.txt": (b"a public file which has the same name", "")}
    for native in (True, False):
        for t in hostileTargets(rng, 250 if c.quick else 8000):
            if not t or b" " in t:
                continue
            n += 1
            ops = (["native"] if native else ["mem"]) + fileops(inside)
            if native:
                ops += ["secret %s %s" % (enc(x), enc(b"TOP-SECRET " + x)) for x in (b"secret.txt", b"www2/secret.txt", b"a/secret.txt", b"index.html", b"x")]
            m = rng.choice([b"GET", b"GET", b"GET", b"HEAD", b"POST"])
            r = upgrade(rng, t) if rng.random() < .08 else request(rng, m, t)
            ops += ["conn 1 1"] + ["send 1 " + enc(p) for p in cuts(rng, r, rng.choice(["one", "two", "few"]))] + ["flush 1 %d" % ALL, "settle"]
            scen.append((n, ops))
    c.validate("HttpServerTrace", prog.result(), scen, "confine", label="hostile targets")
    mc.result()


def c06(c):
    prog, mc = start(c)
    rng = c.rng
    scen, n = [], 0
    for native in (False, True):
        fs = someFiles(rng, native)
        for name in fs:
            for m in (b"GET", b"HEAD"):
                for _ in range(1 if c.quick else 4):
                    n += 1
                    sub = {x: fs[x] for x in set(rng.sample(list(fs), 4)) | {name}}
                    ae = rng.choice([[], [b"Accept-Encoding: gzip, br"], [b"Accept-Encoding: br"], [b"accept-encoding:gzip"], [b"Accept-Encoding: deflate", b"Accept-Encoding: x, BR"]])
                    r = request(rng, m, pct(rng, name), ae)
                    scen.append((n, (["native"] if native else ["mem"]) + fileops(sub) + exchange(rng, 1, r) + ["settle"]))
        for _ in range(330 if c.quick else 9000):
            n += 1
            sub = {x: fs[x] for x in set(rng.sample(list(fs), 6)) | {"index.html", "a/index.html"}}
            r = goodRequest(rng, sub) if rng.random() < .95 else bad(rng)
            ops = ["native", "dir " + enc(b"dir")] if native else ["mem"]
            # several clients, one after the other or at the same time, on the same server
            k = rng.choice([1, 1, 2, 3])
            seqs = [exchange(rng, j, goodRequest(rng, sub)) for j in range(2, k + 1)]
            ex = [exchange(rng, 1, r)] + seqs
            scen.append((n, ops + fileops(sub) + (interleave(rng, ex) if rng.random() < .5 else sum(ex, [])) + ["settle"]))
    c.validate("HttpServerTrace", prog.result(), scen, "serve", label="files")
    mc.result()


def race(rng, k, req):
    """what the peer does reaches the server together with a completion which it has not handled yet"""
    ends = rng.choice([["reset"], ["reset"], ["fin"], ["fin", "reset"]])
    x = ["%s %d" % (e, k) for e in ends]
    how = rng.random()
    if how < .2:
        return ["conn %d %d" % (k, k), "push %d %s" % (k, enc(req)), "hold", "take %d %d" % (k, ALL)] + x + ["release", "flush %d %d" % (k, ALL)]
    ops = ["conn %d %d" % (k, k)] + (["fin %d" % k] if x[0][0] == "r" and rng.random() < .1 else [])
    ops += ["push %d %s" % (k, enc(req)), "take %d %d" % (k, ALL)] + ["flush %d %d" % (k, rng.randrange(1, 90)) for _ in range(rng.randrange(0, 3))]
    if rng.random() < .15:
        return ops + ["hold", "flush %d %d" % (k, rng.randrange(1, 30))] + x + ["release", "flush %d %d" % (k, ALL)]
    return ops + ["hold", "flush %d %d" % (k, ALL)] + x + ["release"]


CYCLES = ["full", "bytes", "finfirst", "finmid", "finafter", "rstfirst", "rstmid", "rstanswer", "rstbefore"]


def c07(c):
    prog, mc = start(c)
    rng = c.rng
    scen, n = [], 0
    fs = {"index.html": (content(rng, 300), ""), "big.bin": (content(rng, 20000), ""), "e.js": (content(rng, 50), "gzip")}
    for g in gen1(c) + gen3(c, 150 if c.quick else 3000):
        n += 1
        reqs = {k: makeReq(rng, kind, fs) for k, kind in enumerate(g["kind"], 1)}
        ops = fileops(fs) + together(rng, schedule(c, rng, g, reqs, n, slow=rng.random() < .2), .3)
        # the others, and later ones, are still served
        ops += exchange(rng, 9, request(rng, b"GET", b"/")) + ["settle"]
        scen.append((n, ops))
    for i in range(120 if c.quick else 2000):
        n += 1
        reqs = [makeReq(rng, rng.choice(["ok", "ok", "up", "bad"]), fs) for _ in range(2)]
        ops = race(rng, 1, reqs[0]) if rng.random() < .5 else interleave(rng, [race(rng, 1, reqs[0]), exchange(rng, 2, reqs[1])])
        scen.append((n, fileops(fs) + ops + exchange(rng, 9, request(rng, b"GET", b"/")) + ["settle"]))
    for kind in CYCLES:
        for r in (request(rng, b"GET", b"/"), request(rng, b"HEAD", b"/big.bin"), request(rng, b"GET", b"/big.bin"), bad(rng), upgrade(rng), request(rng, b"POST", b"/../x"), request(rng, b"GET", b"/e.js")):
            n += 1
            scen.append((n, fileops(fs) + ["cycle %s %d %s" % (kind, 40 if c.quick else 400, enc(r))] + exchange(rng, 1, request(rng, b"GET", b"/")) + ["settle"]))
    c.validate("HttpServerTrace", prog.result(), scen, "life", label="connections and faults")
    mc.result()


def c08(c):
    prog, mc = start(c)
    rng = c.rng
    scen, n = [], 0
    fs = {"index.html": (b"hello", ""), "a.txt": (b"x" * 40, "")}
    after = lambda k: ["push %d %s" % (k, enc(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60))))) for _ in range(rng.randrange(1, 4))]
    gens = gen1(c)
    for g in gens:
        if g["kind"][0] == "bad":
            continue
        n += 1
        ops = fileops(fs) + schedule(c, rng, g, {1: makeReq(rng, g["kind"][0], fs)}, n, slow=rng.random() < .3)
        scen.append((n, ops))
    # all the combinations of the fields which make an upgrade
    ups = [None, b"Upgrade: websocket", b"upgrade: WebSocket", b"Upgrade: h2c", b"Upgrade:WEBSOCKET\t", b"Upgrade: h2c, websocket"]
    cos = [None, b"Connection: Upgrade", b"connection: keep-alive, Upgrade", b"Connection: close", b"Connection: upgrade , x", b"CONNECTION:UPGRADE"]
    keys = [None, "k"]
    ms = [b"GET", b"HEAD", b"POST", b"PUT"]
    for u in ups:
        for co in cos:
            for k in keys:
                for m in ms:
                    if c.quick and m in (b"POST", b"PUT") and rng.random() < .6:
                        continue
                    n += 1
                    extra = [x for x in (u, co) if x] + ([b"Sec-WebSocket-Key: " + wskey(rng)] if k else [])
                    extra += [b"Upgrade-Insecure-Requests: 1"] if rng.random() < .3 else []
                    extra += [rng.choice([b"Connection: close", b"Connection: Upgrade", b"Upgrade: websocket", b"Upgrade: h2c", b"Sec-WebSocket-Key: second"])] if rng.random() < .3 else []
                    r = request(rng, m, rng.choice([b"/", b"/a.txt", b"/none", b"/x?y"]), extra)
                    ops = fileops(fs) + ["conn 1 1"] + ["send 1 " + enc(p) for p in cuts(rng, r)] + drain(rng, 1) + ["flush 1 %d" % ALL] + after(1) + ["settle"]
                    scen.append((n, ops))
    # keys of all kinds of lengths, faults while the answer leaves, data sent as soon as the answer is received
    lengths = [17, 18, 19, 20, 27, 28, 29, 82, 83, 84, 91, 92, 93, 147] if c.quick else list(range(1, 200))
    for i in range(150 if c.quick else 3000):
        n += 1
        key = rng.choice([wskey(rng), b"x", b"a" * rng.randrange(1, 90), b"dGhlIHNhbXBsZSBub25jZQ=="])
        if i < 2 * len(lengths):
            key = bytes(rng.choice(b"abcXYZ019+/=") for _ in range(lengths[i % len(lengths)]))
        r = upgrade(rng, key=key)
        ops = fileops(fs) + ["conn 1 1"] + ["send 1 " + enc(p) for p in cuts(rng, r)]
        f = rng.random()
        if f < .25:
            ops += ["flush 1 %d" % rng.randrange(1, 130), "reset 1"]
        elif f < .35:
            ops += ["reset 1"]
        elif f < .45:
            ops += ["fin 1", "flush 1 %d" % ALL]
        else:
            ops += ["flush 1 %d" % rng.randrange(1, 100), "flush 1 %d" % ALL] + after(1) + ["take 1 %d" % ALL] + after(1)
        if rng.random() < .15:
            ops = fileops(fs) + race(rng, 1, r)
        ops += ["settle"]
        ops += exchange(rng, 2, rng.choice([upgrade(rng), request(rng, b"GET", b"/")])) + ["settle"]
        scen.append((n, ops))
    c.validate("HttpServerTrace", prog.result(), scen, "upgrade", label="opening handshakes")
    mc.result()


CHECKS = {"C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08}
