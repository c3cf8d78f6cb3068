"""C09..C11 : WebSockets"""
from vlib import enc, cuts
from g_server import content

SIZES = [0, 1, 2, 5, 60, 124, 125, 126, 127, 128, 200, 300, 511, 1000, 4000]
BIG = [8178, 8186, 8188, 8192, 8193, 16384, 65534, 65535, 65536, 65537, 70000, 100000]


def size(rng, big=.06):
    return rng.choice(BIG) if rng.random() < big else rng.choice(SIZES)


def key(rng, n):
    if n > 3000 or rng.random() < .15:
        return bytes([rng.choice([0, 1, 0x80, 0xff, 0x37])]) * 4
    return bytes(rng.randrange(256) for _ in range(4))


def frame(rng, fin, op, data, masked=True, code=None, k=None):
    n = len(data)
    code = code if code is not None else n if n < 126 else 126 if n < 65536 else 127
    k = (k or key(rng, n)) if masked else b""
    ext = n.to_bytes(2, "big") if code == 126 else n.to_bytes(8, "big") if code == 127 else b""
    parts = [bytes([(128 if fin else 0) | op]), bytes([(128 if masked else 0) | code]), ext, k,
             (bytes(b ^ k[i % 4] for i, b in enumerate(data)) if n < 4000 or len(set(k)) > 1 else data.translate(bytes(b ^ k[0] for b in range(256)))) if masked else data]
    return parts


def join(parts):
    return b"".join(parts)


def message(rng, big=.06, data=None, op=None):
    """frames of one message"""
    data = content(rng, size(rng, big)) if data is None else data
    op = op or rng.choice([1, 2])
    masked = rng.random() < .85
    n = len(data)
    out = []
    pieces = 1 if rng.random() < .6 else rng.randrange(2, 5)
    pts = sorted(rng.randrange(0, n + 1) for _ in range(pieces - 1))
    for i, (a, b) in enumerate(zip([0] + pts, pts + [n])):
        d = data[a:b]
        code = None
        if rng.random() < .1 and len(d) < 65536:
            code = rng.choice([126, 127])
        out.append(frame(rng, i == pieces - 1, op if i == 0 else 0, d, masked, code))
        while rng.random() < .2:
            out.append(frame(rng, True, rng.choice([9, 10]), content(rng, rng.choice([0, 1, 4, 125])), masked))
    return out


def close(rng, masked=True):
    return frame(rng, True, 8, rng.choice([b"", b"\x03\xe8", b"\x03\xe9bye", content(rng, 125)]), masked)


REALN = {0: [0], 1: [1, 2, 7, 60, 124, 125], 2: [126, 127, 128, 255, 256, 1000], 3: [65536, 65537, 70000]}


def concrete(rng, g, big=.25):
    """stream of the script of a schedule and positions, in it, of the positions in the scaled stream"""
    segs = []
    for f in g["script"]:
        n, wide = f["n"], f["wide"]
        scaledcode = wide if wide else (n if n < 2 else 2 if n == 2 else 3)
        if f["op"] >= 8:
            real = rng.choice([0, 2, 125]) if n else 0
        elif wide:
            real = rng.choice([1, 5, 125, 126, 300])
        elif n == 3 and rng.random() > big:
            real, n = rng.choice(REALN[2]), 3
        else:
            real = rng.choice(REALN[n])
        code = None if not wide else 126 if wide == 2 else 127
        parts = frame(rng, f["fin"], f["op"], content(rng, real), bool(f["key"]), code)
        ext = 0 if scaledcode < 2 else scaledcode - 1
        for s, r in zip((1, 1, ext, len(f["key"]), f["n"]), parts):
            segs.append((s, r))
    stream = b"".join(r for _, r in segs)
    pos = [0]
    at = 0
    for s, r in segs:
        for k in range(1, s + 1):
            pos.append(at + (len(r) if k == s else len(r) * k // s))
        at += len(r)
    pos[-1] = len(stream)
    return stream, pos


def some(rng, c, big=.05):
    kind = rng.choice(["text", "bin", "two", "frame", "bin"])
    n = size(rng, big)
    if kind == "text" or kind == "bin":
        return "send %d %s %s" % (c, kind, enc(content(rng, n)))
    parts = [content(rng, rng.choice([0, 1, 8, 125, 126, n])) for _ in range(rng.randrange(1, 3) if kind == "two" else rng.randrange(1, 7))]
    return "send %d %s %s" % (c, kind, " ".join(enc(p) for p in parts))


def play(rng, g, faults=True, sends=True):
    stream, pos = concrete(rng, g)
    ops = ["open 1 %s %s" % (rng.choice(["none", "none", "echo", "burst"]), rng.choice(["none", "destroy", "send"])), "push 1 " + enc(stream)]
    at = 0
    for o in g["ops"]:
        if o[0] == "recv":
            ops.append("take 1 %d" % (pos[at + o[1]] - pos[at]) if pos[at + o[1]] > pos[at] else "take 1 0")
            at += o[1]
        elif o[0] == "send":
            if sends:
                ops.append(some(rng, 1))
        elif o[0] == "flush":
            ops.append("flush 1 %d" % (1 << 24 if o[2] else rng.choice([1, 2, 3, 4, 9, 10, 11, 100, 127, 5000])))
        elif faults:
            ops.append(o[0] + " 1")
    ops.append("settle")
    return [o for o in ops if not o.endswith("take 1 0")]


def gen(c, n):
    got = c.generate("WebSocketMC", "WebSocketGen.cfg", simulate=n, depth=120)
    seen = {}
    for g in got:
        seen[repr(g)] = g
    return list(seen.values())


def start(c):
    return c.compile("drv_ws"), c.model_check("WebSocketMC", "WebSocketMC.cfg", workers=3)


def interleave(rng, seqs):
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        s = rng.choice(seqs)
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            if s:
                out.append(s.pop(0))
        seqs = [x for x in seqs if x]
    return out


def together(rng, ops, chance=.5):
    """lets operations of different sockets complete before any of them is handled"""
    out, k = [], 0
    while k < len(ops):
        n, seen = 0, set()
        while k + n < len(ops) and n < 4:
            o = ops[k + n].split()
            if o[0] not in ("recv", "take", "flush", "push") or o[1] in seen:
                break
            seen.add(o[1])
            n += 1
        if n > 1 and rng.random() < chance:
            out += ["hold"] + ops[k:k + n] + ["release"]
            k += n
        else:
            out.append(ops[k])
            k += 1
    return out


def c09(c):
    prog, mc = start(c)
    rng = c.rng
    scen = []

    def add(ops):
        scen.append((len(scen) + 1, ops))
    for g in gen(c, 400 if c.quick else 6000):
        if any(o[0] == "recv" for o in g["ops"]):
            add(play(rng, g, faults=rng.random() < .3))
    # every cut of short streams, in two and in three pieces
    for _ in range(4 if c.quick else 40):
        stream = b"".join(join(f) for _ in range(rng.randrange(2, 4)) for f in message(rng, 0, content(rng, rng.choice([0, 1, 2, 3, 6]))))
        if len(stream) > 60:
            stream = b"".join(join(frame(rng, True, rng.choice([1, 2]), content(rng, k))) for k in (0, 3, 1))
        for i in range(1, len(stream)):
            add(["open 1 none none", "recv 1 " + enc(stream[:i]), "recv 1 " + enc(stream[i:])])
        for _ in range(60 if c.quick else 400):
            i, j = sorted(rng.sample(range(1, len(stream)), 2))
            add(["open 1 none none", "recv 1 " + enc(stream[:i]), "recv 1 " + enc(stream[i:j]), "recv 1 " + enc(stream[j:])])
        add(["open 1 none none"] + ["recv 1 " + enc(stream[i:i + 1]) for i in range(len(stream))])
    # headers of all the kinds cut everywhere
    for masked in (False, True):
        for n, code in ((5, None), (5, 126), (5, 127), (130, None), (130, 127), (0, None), (0, 126), (0, 127), (66000, None)):
            head = frame(rng, True, 2, content(rng, n), masked, code)
            tail = join(frame(rng, True, 1, b"next", masked))
            h = sum(len(p) for p in head[:4])
            for i in range(1, h + 2):
                s = join(head) + tail
                add(["open 1 none none", "recv 1 " + enc(s[:i]), "recv 1 " + enc(s[i:])])
                if n != 66000:
                    before = join(frame(rng, True, 1, b"first", masked))
                    add(["open 1 none none", "recv 1 " + enc(before + s[:i]), "recv 1 " + enc(s[i:])])
    # random streams, random cuts, several sockets
    for k in range(250 if c.quick else 6000):
        seqs = []
        for s in range(1, rng.choice([1, 1, 2, 3]) + 1):
            stream = b"".join(join(f) for _ in range(rng.randrange(1, 7)) for f in message(rng, .05))
            if rng.random() < .2:
                stream += join(close(rng)) + join(frame(rng, True, 1, b"after"))
            how = rng.choice([None, "one", "few", "big"])
            pieces = [stream[i:i + 8192] for i in range(0, len(stream), 8192)] if how == "big" else cuts(rng, stream, how)
            seqs.append(["open %d %s none" % (s, rng.choice(["none", "echo", "burst", "none"]))] + ["recv %d %s" % (s, enc(p)) for p in pieces])
        ops = interleave(rng, seqs)
        add((together(rng, ops, .8) if rng.random() < .6 else ops) + ["settle"])
    # lengths which need each of the bytes of their field
    for k in range(8):
        for low in (0, 3, 9) if c.quick else range(12):
            for masked in (False, True):
                head = bytes([0x82, 127 | (128 if masked else 0)]) + ((1 << 8 * k) * rng.choice([1, 2, 127, 255 if k < 7 else 127]) + low if k else low).to_bytes(8, "big") + (key(rng, 0) if masked else b"")
                s = head + content(rng, low + 3) + join(frame(rng, True, 1, b"next", masked))
                i = rng.randrange(1, len(s))
                add(["open 1 none none", "recv 1 " + enc(s[:i]), "recv 1 " + enc(s[i:])])
    for n in (1 << 24, (1 << 24) + 70001):
        add(["open 1 none none", "recv 1 " + enc(join(frame(rng, True, 2, b"\x5a" * n, True, None, b"\1\1\1\1")) + join(frame(rng, True, 1, b"next")))])
    # many messages in one read
    for k in range(10 if c.quick else 100):
        stream = b"".join(join(frame(rng, True, rng.choice([1, 2]), content(rng, rng.choice([0, 1, 2, 3, 9])), rng.random() < .5)) for _ in range(300))
        add(["open 1 none none", "push 1 " + enc(stream), "take 1 %d" % rng.choice([1 << 24, 100, 1000]), "settle"])
    c.validate("WebSocketTrace", prog.result(), scen, "recv", label="received messages")
    # the decoder of frames alone, pieces without anything behind them
    alone = []
    for n, code in ((0, None), (0, 126), (0, 127), (1, None), (3, 126), (2, 127), (5, None), (125, None), (126, None), (130, 127), (300, None), (65536, None)):
        for masked in (False, True):
            s = join(frame(rng, rng.random() < .7, rng.choice([0, 1, 2, 8, 9, 10]), content(rng, n), masked, code)) 
            t = s + join(frame(rng, True, 2, content(rng, rng.choice([0, 1, 7])), masked))
            for i in range(1, min(len(s), 20)):
                alone.append(["decode %s %s" % (enc(s[:i]), enc(s[i:])), "decode %s %s" % (enc(t[:i]), enc(t[i:]))])
    for _ in range(150 if c.quick else 4000):
        stream = b"".join(join(f) for _ in range(rng.randrange(1, 6)) for f in message(rng, .03) + ([close(rng)] if rng.random() < .2 else []))
        alone.append(["decode " + " ".join(enc(p) for p in cuts(rng, stream) if p)])
    c.validate("WsDecoderTrace", prog.result(), list(enumerate(alone, 1)), label="frames")
    mc.result()


def c10(c):
    prog, mc = start(c)
    rng = c.rng
    scen = []

    def add(ops):
        scen.append((len(scen) + 1, ops))
    for g in gen(c, 400 if c.quick else 6000):
        if any(o[0] == "send" for o in g["ops"]):
            add(play(rng, g, faults=rng.random() < .3))
    for n in range(0, 300, 1 if not c.quick else 7):
        add(["open 1 none none", "send 1 text " + enc(content(rng, n)), "send 1 bin " + enc(content(rng, n)), "settle"])
    for n in BIG + [124, 125, 126, 127]:
        for kind in ("text", "bin", "two", "frame"):
            d = content(rng, n)
            k = rng.randrange(0, n + 1)
            data = enc(d) if kind in ("text", "bin") else enc(d[:k]) + " " + enc(d[k:])
            add(["open 1 none none", "send 1 %s %s" % (kind, data), "flush 1 %d" % rng.choice([1, 5, 9000]), "send 1 text " + enc(b"x"), "settle"])
    # frames made of many buffers, growing over the thresholds
    for k in range(60 if c.quick else 800):
        parts = [content(rng, rng.choice([0, 1, 9, 60, 125, 126, 300, 3000])) for _ in range(rng.randrange(1, 40))]
        add(["open 1 none none", "send 1 frame " + " ".join(enc(p) for p in parts), "settle"])
    # any number of messages, at any moment
    for k in range(300 if c.quick else 8000):
        seqs = []
        for s in range(1, rng.choice([1, 1, 2, 3]) + 1):
            mode = rng.choice(["none", "echo", "burst"])
            ops = ["open %d %s none" % (s, mode)]
            for _ in range(rng.randrange(1, 14)):
                r = rng.random()
                if r < .5:
                    ops.append(some(rng, s, .03))
                elif r < .85:
                    ops.append("flush %d %d" % (s, rng.choice([1, 2, 3, 10, 100, 130, 1000, 1 << 24])))
                else:
                    ops.append("recv %d %s" % (s, enc(b"".join(join(f) for f in message(rng, 0, content(rng, rng.choice([0, 1, 5, 126, 400])))))))
            seqs.append(ops)
        ops = interleave(rng, seqs)
        add((together(rng, ops) if rng.random() < .5 else ops) + ["settle"])
    # many sends before anything leaves
    for k in range(6 if c.quick else 60):
        add(["open 1 none none"] + [some(rng, 1, 0) for _ in range(120)] + ["flush 1 %d" % rng.choice([1, 7, 1000]) for _ in range(30)] + ["settle"])
    c.validate("WebSocketTrace", prog.result(), scen, "send", label="sent messages")
    mc.result()


def c11(c):
    prog, mc = start(c)
    rng = c.rng
    scen = []

    def add(ops):
        scen.append((len(scen) + 1, ops))
    for g in gen(c, 700 if c.quick else 10000):
        add(play(rng, g))
    # every moment for every end, while messages are received and sent
    for onmsg in ("none", "echo", "burst", "stop2"):
        for onclose in ("none", "destroy", "send"):
            for end in ("fin 1", "reset 1", "stop 1", "destroy 1", "recv 1 " + enc(join(close(rng))), "recv 1 " + enc(join(close(rng)) + join(frame(rng, True, 1, b"after"))),
                        "recv 1 " + enc(join(frame(rng, True, 1, b"with")) + join(close(rng, False)) + join(close(rng)))):
                base = [some(rng, 1, .02), "recv 1 " + enc(join(frame(rng, True, 1, b"hello"))), "flush 1 3", some(rng, 1, .02), "push 1 " + enc(join(frame(rng, True, 2, content(rng, 140)))), "take 1 20", "flush 1 2000", "take 1 200"]
                for i in range(len(base) + 1):
                    if c.quick and rng.random() < .4:
                        continue
                    more = rng.choice([[], ["recv 1 " + enc(join(frame(rng, True, 1, b"late")))], ["flush 1 10", "send 1 text " + enc(b"late")], ["reset 1"], ["destroy 1"], ["stop 1"], ["fin 1", "reset 1"]])
                    add(["open 1 %s %s" % (onmsg, onclose), "open 2 none none"] + base[:i] + [end] + base[i:] + more + ["send 2 text " + enc(b"still here"), "recv 2 " + enc(join(frame(rng, True, 1, b"here"))), "settle"])
    # ends which are met together with completions not yet handled
    for k in range(250 if c.quick else 4000):
        msg = lambda: join(frame(rng, True, rng.choice([1, 2]), content(rng, rng.choice([0, 3, 200]))))
        ops = ["open 1 %s %s" % (rng.choice(["none", "echo", "burst", "stop2"]), rng.choice(["none", "destroy", "send"])), "open 2 none none"]
        ops += [some(rng, 1, .02) for _ in range(rng.randrange(0, 3))] + ["flush 1 %d" % rng.choice([1, 3, 100]) for _ in range(rng.randrange(0, 2))]
        held = [rng.choice(["flush 1 %d" % (1 << 24), "flush 1 5", some(rng, 1, .01), "recv 1 " + enc(msg()), "recv 1 " + enc(msg() + msg()[:3]), "recv 1 " + enc(join(close(rng)))]) for _ in range(rng.randrange(1, 4))]
        ends = rng.choice([["reset 1"], ["fin 1"], ["stop 1"], ["destroy 1"], ["fin 1", "reset 1"], ["stop 1", "destroy 1"], ["reset 1", "destroy 1"], ["reset 1", "stop 1"]])
        at = rng.randrange(len(held) + 1)
        ops += ["hold"] + held[:at] + ends + held[at:] + ["release", "send 2 text " + enc(b"still here"), "recv 2 " + enc(join(frame(rng, True, 1, b"here"))), "settle"]
        add(ops)
    for kind in ("settled", "midwrite", "fin", "destroy"):
        for data in (b"", join(frame(rng, True, 1, content(rng, 3000))), join(frame(rng, True, 1, b"abc"))[:5], join(close(rng)), join(frame(rng, False, 1, content(rng, 300)))):
            add(["cycle %d %s %s" % (30 if c.quick else 300, kind, enc(data))])
    c.validate("WebSocketTrace", prog.result(), scen, "life", label="ends")
    mc.result()


CHECKS = {"C09": c09, "C10": c10, "C11": c11}
