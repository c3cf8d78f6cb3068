"""C19-C24, C26, C27: files and their providers, logging, codings, type-erased functions, dumps."""
import re
from vlib import enc

ASSETS = [  # provider, name, encoding, number of bytes and digest (FNV-1a, 64 bits)
    ("i", "index.html", "br", "69:d8636aeb73cced21"),
    ("i", "favicon.ico", "br", "528:af300a9fecf5b33e"),
    ("i", "WebFront.js", "gzip", "3501:94cddbbcdf8f2343"),
    ("r", "react@18/umd/react.production.min.js", "br", "3761:ea9caa13782edc11"),
    ("r", "react-dom@18/umd/react-dom.production.min.js", "br", "37235:8e0b87932d50e589"),
    ("b", "babel-standalone@7.22.5/babel.min.js", "br", "398150:60b45032b81d07b7"),
    ("j", "jasmine/4.6.0/jasmine_favicon.png", "br", "1162:d61e8c92a6e2bdf0"),
    ("j", "jasmine/4.6.0/jasmine.css", "br", "6409:c95151709949124f"),
    ("j", "jasmine/4.6.0/jasmine.js", "br", "50056:f5ecfa372bfdad9f"),
    ("j", "jasmine/4.6.0/jasmine-html.js", "br", "5166:9d81d77d7c53083d"),
    ("j", "jasmine/4.6.0/boot0.js", "br", "990:12b4f86ce0cced4e"),
    ("j", "jasmine/4.6.0/boot1.js", "br", "1475:59401573445bb9df"),
]


def word(s):
    return enc(s.encode() if isinstance(s, str) else s)


def content(rng, n):
    if n > 3000:
        k = rng.randrange(n)
        return bytes([rng.randrange(256)]) * k + bytes([rng.randrange(256)]) * (n - k - 5) + b"tail!"[:n]
    return bytes(rng.choice([rng.randrange(256), rng.randrange(32, 127), 255, 0, 26, 10, 13]) for _ in range(n))


class Scenarios:
    def __init__(self):
        self.all = []

    def add(self, *ops):
        if ops:
            self.all.append((len(self.all) + 1, list(ops)))


# ------------------------------------------------------------------------------------------------ files
SIZES = [0, 1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 100, 511, 512, 513]


def reads(rng, k, n, most=40):
    """reads of a file of n bytes, up to its end and beyond"""
    ops, left = [], n
    style = rng.randrange(5)
    for _ in range(most):
        m = rng.choice([0, 1, 1, 2, 3, 7, 8, 9]) if style == 0 else rng.choice([1, max(left, 0), max(left - 1, 0), left + 1]) if style == 1 else rng.randrange(2 * n + 2) if style == 2 else 512 if style == 3 else 1 + n // rng.randrange(1, 6)
        ops.append("read %d %d" % (k, m))
        left -= min(m, left)
        r = rng.random()
        if r < .1:
            ops.append("end %d" % k)
        elif r < .15:
            ops.append("enc %d" % k)
        if left == 0 and rng.random() < .4:
            break
    if rng.random() < .5:
        ops.append("read %d %d" % (k, n + 5))
    if rng.random() < .5:
        ops += ["read %d %d" % (k, rng.choice([0, 1, 10])), "end %d" % k]
    return ops


def given(rng, k, size):
    if rng.random() < .5:
        return "mem %d %s %s" % (k, enc(content(rng, size)), word(rng.choice(["", "", "br", "gzip"])))
    return "disk %d %s" % (k, enc(content(rng, size)))


def from_model(c, behaviours, rng, s):
    """stores and readers of FileStoreMC"""
    for g in behaviours:
        ops = []
        kind = rng.choice(["mmm", "mmm", "mnm"])
        for p, files in enumerate(g["files"], 1):
            for i, n in enumerate(files, 1):
                if n >= 0:
                    n = n * rng.choice([1, 1, 3, 700])
                    d = enc(content(rng, n))
                    ops.append("host %d %s %s" % (p, word(chr(96 + i)), d) if kind == "mnm" and p == 2 else "mock %d %s %s %s" % (p, word(chr(96 + i)), d, word(rng.choice(["", "br"]))))
        ops.append("multi %s 3" % kind)
        scale = rng.choice([1, 1, 3, 700])
        for o in g["ops"]:
            ops.append("open %d %s" % (o[1], word(chr(96 + o[2]))) if o[0] == "open" else "read %d %d" % (o[1], o[2] * scale) if o[0] == "read" else "move %d %d" % (o[1], o[2]) if o[0] == "move" else "close %d" % o[1])
        s.add(*ops)


def c19(c):
    prog = c.compile("drv_files")
    mc = c.model_check("FileStoreMC", "FileStoreMC.cfg", env={"MODE": "check"}, workers=3)
    rng, s = c.rng, Scenarios()
    from_model(c, c.generate("FileStoreMC", "FileStoreGen.cfg", env={"MODE": "gen"}, simulate=100 if c.quick else 3000, depth=30), rng, s)
    # every size around the words, by reads of every size
    for size in range(0, 34 if c.quick else 80):
        for n in range(1, 20 if c.quick else 90):
            ops = [] if (size + n) % 2 else [given(rng, 1, size)]
            ops = ops or ["mem 1 %s -" % enc(content(rng, size))]
            s.add(*(ops + ["read 1 %d" % n] * (size // n + 2)))
    for _ in range(500 if c.quick else 12000):   # several files at a time, read in turns, moved
        ops, queues, where = [], [], {}
        for k in range(1, rng.randrange(2, 5)):
            size = rng.choice(SIZES + [rng.randrange(2000)]) if rng.random() < .97 else rng.choice([4096, 8191, 8192, 16384, 70000])
            ops.append(given(rng, k, size))
            queues.append(reads(rng, k, size))
        while queues:
            q = rng.choice(queues)
            ops.append(q.pop(0))
            if not q:
                queues.remove(q)
        r = rng.random()
        if r < .5:  # a file goes to another place while it is read
            k, at = 1, rng.randrange(1, len(ops))
            if any(o.split()[0] in ("mem", "disk") for o in ops[at:]):
                at = max(i for i, o in enumerate(ops) if o.split()[0] in ("mem", "disk")) + 1
            after = [o.replace(" 1 ", " 9 ", 1) if o.split()[1] == "1" and len(o.split()) > 2 else o.replace(" 1", " 9") if o.split()[1] == "1" else o for o in ops[at:]]
            ops = ops[:at] + ["move 1 9"] + after
        s.add(*ops)
    c.validate("FileStoreTrace", prog.result(), s.all, label="reading of files")
    mc.result()


NAMES = ["a", "b", "index.html", "dir/file.txt", "dir/sub/x", "A", "a.b.c", "WebFront.js", "favicon.ico", "with space", "\u00e9t\u00e9", "x" * 120]


def near(rng, name):
    """a name which looks like another one"""
    r = rng.randrange(9)
    return (name[:-1] if r == 0 else name + "x" if r == 1 else "x" + name if r == 2 else name.upper() if r == 3 else "dir/" + name if r == 4 else name + "/" if r == 5 else name.split("/")[-1] + "." if r == 6 else
            "/".join(name.split("/")[:-1]) or "z" if r == 7 else name.replace(".", "_") if "." in name else name + ".js")


def c20(c):
    prog = c.compile("drv_files")
    mc = c.model_check("FileStoreMC", "FileStoreMC.cfg", env={"MODE": "check"}, workers=3)
    rng, s = c.rng, Scenarios()
    from_model(c, c.generate("FileStoreMC", "FileStoreGen.cfg", env={"MODE": "gen"}, simulate=100 if c.quick else 3000, depth=30), rng, s)
    kinds = ["m", "mm", "mmm", "n", "nm", "mn", "mnm", "nm", "mnm", "mmm"]
    for _ in range(600 if c.quick else 12000):
        kind = rng.choice(kinds)
        names = rng.sample(NAMES, rng.randrange(1, 5))
        ops = []
        held = set()
        for p, t in enumerate(kind, 1):
            for n in names:
                if rng.random() < .5:
                    size = rng.choice([0, 0, 1, 8, 9, 20, 300])
                    held.add((p, n))
                    ops.append("host %d %s %s" % (p, word(n), enc(content(rng, size))) if t == "n" else "mock %d %s %s %s" % (p, word(n), enc(content(rng, size)), word(rng.choice(["", "br", "gzip"]))))
        asks = names + [near(rng, rng.choice(names)) for _ in range(3)]
        if "n" in kind:  # what is not a file, what cannot be one
            ops.append("dir " + word("folder"))
            ops.append("dir " + word("dir"))
            ops.append("fifo " + word("pipe"))
            ops.append("link %s %s" % (word("dangling"), word("nothing")))
            ops.append("link %s %s" % (word("todir"), word("folder")))
            asks += rng.sample(["folder", "folder/", "pipe", "dangling", "todir", "missing", "dir", "dir/missing", "folder/missing", "dir/file.txt", "a/b", "pipe/x", "."], 5)
        ops.append("multi %s %d" % (kind, len(kind)))
        rng.shuffle(asks)
        for n in asks:
            if n.endswith("/") and n != "folder/":
                continue
            slash = "/" if rng.random() < .3 and "n" not in kind else ""
            k = rng.randrange(1, 8)
            ops.append("open %d %s" % (k, word(n)))
            if rng.random() < .6:
                ops += ["enc %d" % k, "read %d 1000" % k]
        s.add(*ops)
    # the embedded assets, and what is near them
    known = {k: [a for a in ASSETS if a[0] == k] for k in "irbj"}
    for kind in list("irbj") + ["all", "lla"]:
        mine = known.get(kind, ASSETS)
        tell = "known " + " ".join("%s %s %s" % (word(n), word(e), d) for _, n, e, d in mine)
        for _ in range(2 if c.quick else 10):
            ops = ["multi %s 1" % kind, tell]
            for _, n, _, _ in mine:
                ops.append("asset %s %d" % (word(n), rng.choice([512, 4096, 1000, 65536])))
            for _ in range(40):
                other = rng.choice(ASSETS)[1]
                n = other if rng.random() < .4 else near(rng, other)
                if n.endswith("/") or (n.startswith("/")):
                    continue
                ops.append("asset %s 4096" % word(n))
            s.add(*ops)
    for _ in range(20 if c.quick else 200):  # a file hides an asset and conversely
        mask = rng.random() < .5
        size = rng.choice([0, 3, 100])
        name = rng.choice(["index.html", "favicon.ico", "other.html"])
        kind = rng.choice(["nim", "mi"])
        ops = []
        if mask:
            ops.append("host 1 %s %s" % (word(name), enc(content(rng, size))) if kind == "nim" else "mock 1 %s %s %s" % (word(name), enc(content(rng, size)), word("br")))
        for _, n, e, _ in known["i"][:2]:
            data = {"index.html": INDEX, "favicon.ico": b"?"}[n]
            if n == "index.html":
                ops.append("has 2 %s %s %s" % (word(n), enc(data), word(e)))
        if kind == "nim":
            ops.append("mock 3 %s %s -" % (word(rng.choice(["index.html", "other.html"])), enc(b"third")))
        ops.append("multi %s %d" % (kind, len(kind)))
        for n in ["index.html", "other.html", "WebFront.jsx"]:
            ops += ["open 1 " + word(n), "enc 1", "read 1 50", "read 1 200"]
        s.add(*ops)
    c.validate("FileStoreTrace", prog.result(), s.all, label="providers of files")
    mc.result()


INDEX = bytes.fromhex("a1700400e0383dd6fcacc835c88b58d952b82a1f239ddcf9a0d65a2581e511b42cd0c06df85c8a2ca29e6831070def200ff44a658bab1f4d14065fb5a7c383b87904c81000")


# -------------------------------------------------------------------------------------------- logging
def c21(c):
    prog = c.compile("drv_units")
    mc = c.model_check("LoggingMC", "LoggingMC.cfg", env={"MODE": "check"}, workers=3)
    rng, s = c.rng, Scenarios()
    texts = [b"", b"text", b"two words", b"100%", b"{}", b"{0}", b"}", b"{", b"a {} b", b"\xc3\xa9", b" | ", b"[E] ", b"x" * 300, b"tail ", b"%s%d", b"{:x}"]

    def log(level):
        kind = rng.choice(["0", "i", "s", "si", "bss"])
        t = [rng.choice(texts) for _ in range(3)]
        if kind == "0":
            t = [rng.choice([x for x in texts if b"{" not in x and b"}" not in x])]
        return "log %d %s %d %d %s" % (level, kind, rng.choice([0, 1, -1, 42, -2147483647, 2147483647, rng.randrange(-1000, 1000)]), rng.randrange(2), " ".join(enc(x) for x in t))
    got = c.generate("LoggingMC", "LoggingGen.cfg", env={"MODE": "gen"}, simulate=150 if c.quick else 3000, depth=120)
    rng.shuffle(got)
    for g in got[:400 if c.quick else 12000]:
        ops = []
        for o in g["ops"]:
            ops.append("level %d" % o[1] if o[0] == "level" else "set %d %d" % (o[1], o[2]) if o[0] == "set" else "%s %d" % (o[0], o[1]) if o[0] in ("add", "remove") else log(o[1]))
        s.add(*ops)
    for _ in range(150 if c.quick else 4000):
        ops, up, known, count = [], set(), set(), 0
        if rng.random() < .8:
            ops.append("level %d" % rng.randrange(5))
        for _ in range(rng.randrange(5, 40)):
            r = rng.random()
            if r < .15 and count < 18:
                new = list(range(count, count + min(rng.randrange(1, 4), 18 - count)))
                count += len(new)
                ops.append("add " + " ".join(map(str, new)))
                up |= set(new)
                known.add(new[-1])
            elif r < .25 and known & up:
                gone = rng.sample(sorted(known & up), min(len(known & up), rng.randrange(1, 4)))
                ops.append("remove " + " ".join(map(str, gone)))
                up -= set(gone)
            elif r < .32:
                ops.append("level %d" % rng.randrange(5))
            elif r < .4:
                ops.append("set %d %d" % (rng.randrange(1, 5), rng.randrange(2)))
            elif r < .5:
                ops.append("is %d" % rng.randrange(1, 5))
            elif r < .56:
                ops.append("hex %s %s" % (enc(rng.choice(texts[1:4])), enc(content(rng, rng.choice([1, 15, 16, 17, 40])))))
            else:
                ops.append(log(rng.randrange(1, 5)))
        s.add(*ops)
    for first in range(5):   # every level after every level, messages of each
        for second in range(5):
            ops = ["add 1", "level %d" % first] + [log(l) for l in range(1, 5)] + ["level %d" % second] + ["is %d" % l for l in range(1, 5)] + [log(l) for l in range(1, 5)]
            for l in range(1, 5):
                ops += ["set %d %d" % (l, l % 2)] + ["is %d" % i for i in range(1, 5)] + [log(i) for i in range(1, 5)]
            s.add(*ops)
    c.validate("LoggingTrace", prog.result(), s.all, label="logging")
    mc.result()


# ------------------------------------------------------------------------------------------- codings
def codings(c, mode, extra, label):
    prog = c.compile("drv_codings", ["-O2"])
    mc = c.model_check("EncodingsMC", "EncodingsMC.cfg", env={"MODE": mode, "TIER": "check"}, workers=3)
    s = Scenarios()
    texts = [bytes(t) for t in c.generate("EncodingsMC", "EncodingsGen.cfg", env={"MODE": mode, "TIER": "gen"}, workers=4)]
    extra(c.rng, texts, s)
    c.validate("EncodingsTrace", prog.result(), s.all, label=label)
    mc.result()


def groups(s, op, texts, n=12):
    for i in range(0, len(texts), n):
        s.add(*["%s %s" % (op, enc(t)) for t in texts[i:i + n]])


def c22(c):
    def extra(rng, texts, s):
        groups(s, "pct", texts)
        groups(s, "pct", [bytes([b]) for b in range(256)] + [b"%%%02x" % b for b in range(256)] + [b"%%%02X" % b for b in range(256)])
        hexa = b"09afAFgG/:@`"   # the characters at the edges of the digits
        groups(s, "pct", [bytes([37, a, b]) + t for a in hexa for b in hexa for t in (b"", b"1")])
        for _ in range(100 if c.quick else 4000):
            groups(s, "pct", [bytes(rng.choice([37, 37, 43, 97, 70, 48, rng.randrange(256)]) for _ in range(rng.randrange(40))) for _ in range(6)])
        s.add("pct " + enc(bytes(range(256)) * 2), "pct " + enc(b"%" * 300), "pct " + enc(b"%41" * 200), "pct " + enc(b"a" * 700 + b"%4"))
    codings(c, "pct", extra, "percent-coding")


def c23(c):
    def extra(rng, texts, s):
        groups(s, "b64", texts)
        for n in range(0, 70 if c.quick else 300):
            d = content(rng, n)
            s.add("b64 " + enc(d), "net " + enc(d))
        for b in range(0, 256, 4):   # every value at every place
            for i in range(3):
                s.add(*["b64 " + enc(bytes(i) + bytes([b + j])) for j in range(4)])
        for _ in range(100 if c.quick else 2000):
            s.add("b64 " + enc(content(rng, rng.choice([7, 8, 12, rng.randrange(100)]))), "net " + enc(content(rng, rng.choice([8, 16, 20, 24]))))
        lengths = [0, 1, 2, 3, 24, 54, 55, 56, 57, 60, 61, 63, 64, 65, 119, 120, 121, 127, 128, 129] if c.quick else list(range(0, 200)) + [255, 256, 257, 511, 512, 513, 1000]
        for n in lengths:
            s.add("sha " + enc(content(rng, n)))
            s.add("sha " + enc(bytes([255]) * n))
        for _ in range(20 if c.quick else 500):
            s.add("sha " + enc(content(rng, rng.randrange(140))))
        for n, v in [(8192, 97), (9001, 255), (70000, 0), (2097152, 97), (2200003, 16)] + [(536870912, 97)]:
            s.add("huge %d %d" % (n, v))
    codings(c, "b64", extra, "base64 and SHA-1")


def a_uri(rng):
    while True:
        t = some_uri(rng)
        if well_formed(t):
            return t


def some_uri(rng):
    pick = lambda *l: rng.choice(l)
    scheme = pick("", "", "http", "https", "ws", "x-y+z.1", "a")
    authority = pick(None, "host", "www.example.com", "user@host", "john.doe:pw@www.example.com:123", "host:80", "[::1]", "[2001:db8::7]:8080", "u@[::1]:1", "", "h:", "@h", ":80", "a:b:c", "a@b@c", "]:[", "[::1", "[")
    path = pick("", "/", "/a", "/forum/questions/", "/a:b@c", "//", "/a//b", "/%20+") if authority is not None or rng.random() < .5 else pick("a", "a/b", "", "a:b", "..", "*")
    query = pick(None, None, "", "q", "a=b&c=d", "a?b", "x=http://h/p", "/?")
    fragment = pick(None, None, "", "top", "a?b", "x#y", "#", "http://h")
    t = (scheme + "://" if authority is not None and (scheme or rng.random() < .1) else "//" if authority is not None else "") + (authority or "") + path
    return (t + ("?" + query if query is not None else "") + ("#" + fragment if fragment is not None else "")).encode() + (b"\xc3\xa9" if rng.random() < .03 else b"")


def well_formed(t):
    """what is not a URI is not specified: empty scheme, scheme without //, several @, unbalanced brackets, several ports"""
    head = re.match(rb"[^/?#]*", t).group()
    if b":" in head and (not t[head.index(b":"):].startswith(b"://") or head.index(b":") in (0,) or head.count(b":") > 1):
        return False
    m = re.match(rb"(?:[^:/?#]+:)?//([^/?#]*)", t)
    if not m:
        return True
    a = m.group(1).split(b"@")
    return len(a) <= 2 and bool(re.fullmatch(rb"(\[[^\[\]]*\]|[^:\[\]]*)(:[^:]*)?", a[-1]))


def c24(c):
    def extra(rng, texts, s):
        texts = [t for t in texts if well_formed(t)]
        rng.shuffle(texts)
        groups(s, "uri", texts)
        for _ in range(100 if c.quick else 3000):
            groups(s, "uri", [a_uri(rng) for _ in range(12)])
            s.add("uris " + " ".join(enc(a_uri(rng)) for _ in range(rng.randrange(1, 5))))
        for _ in range(20 if c.quick else 300):
            s.add("threads " + " ".join(enc(a_uri(rng)) for _ in range(rng.randrange(2, 5))))
        s.add("uri " + enc(b"http://" + b"h" * 500 + b"/" + b"p" * 500 + b"?" + b"q" * 500 + b"#" + b"f" * 500))
    codings(c, "uri", extra, "splitting of URIs")


# ------------------------------------------------------------------------------------------ callables
CALLABLES = {"free0": "0", "freeV": "0", "freeI": "i", "freeIS": "is", "freeSI": "si", "freeP": "pii", "freeD": "d", "freeB": "b", "bump": "i&", "view": "v", "constRef": "cs&", "functor": "i", "mutable": "ii",
             "lambda": "i", "capture": "is", "std": "l", "stdVoid": "s", "method": "i", "method2": "i", "both": "si", "none": "0", "owner": "i", "shared": "si"}
SIGNATURES = ["0", "i", "is", "si", "ii", "iii", "s", "u", "l", "d", "b", "v", "p", "pii", "i&", "cs&"]
RESULTS = ["any", "void", "int", "string", "double", "bool", "long"]


def c26(c):
    prog = c.compile("drv_calls")
    mc = c.model_check("CallablesMC", "CallablesMC.cfg", env={"MODE": "check"}, workers=3)
    rng, s = c.rng, Scenarios()

    def args():
        return "%d %d %s" % (rng.choice([0, 1, -1, 5, 1000, -70000, rng.randrange(-100000, 100000)]), rng.randrange(-50, 50), enc(rng.choice([b"", b"a", b"Bob", b"two words", b"long " * 20])))
    for name in CALLABLES:   # every signature and result
        for sig in SIGNATURES:
            s.add("store 1 " + name, *["call 1 %s %s %s" % (sig, w, args()) for w in RESULTS])
    real = {("v", ()): ["freeV", "none"], ("i", ()): ["free0"], ("i", ("i",)): ["freeI", "functor", "lambda", "method", "method2", "owner"], ("v", ("s",)): ["stdVoid"], ("i", ("i", "s")): ["freeIS", "capture"], ("i", ("i", "i")): ["mutable"]}
    for g in c.generate("CallablesMC", "CallablesGen.cfg", env={"MODE": "gen"}, simulate=150 if c.quick else 3000, depth=60):
        ops = []
        for o in g["ops"]:
            if o[0] == "store":
                ops.append("store %d %s" % (o[1], rng.choice(real.get((o[3][0], tuple(o[2])), list(CALLABLES)))))
            elif o[0] == "move":
                ops.append("move %d %d" % (o[1], o[2]))
            else:
                sig = {(): "0"}.get(tuple(o[2]), "".join(o[2]))
                ops.append("call %d %s %s %s" % (o[1], sig if sig in SIGNATURES else rng.choice(SIGNATURES), {"i": "int"}.get(o[3], o[3]), args()))
        s.add(*ops)
    for _ in range(200 if c.quick else 6000):
        ops, held = [], {}
        for _ in range(rng.randrange(4, 30)):
            r = rng.random()
            if r < .25 or not held:
                k, n = rng.randrange(1, 8), rng.choice(list(CALLABLES))
                held[k] = n
                ops.append("store %d %s" % (k, n))
            elif r < .35:
                k = rng.choice(list(held))
                j = rng.choice([j for j in range(1, 8) if j != k])
                held[j] = held.pop(k)
                ops.append("move %d %d" % (k, j))
            elif r < .4:
                k = rng.choice(list(held))
                del held[k]
                ops.append("forget %d" % k)
            else:
                k = rng.choice(list(held))
                ops.append("call %d %s %s %s" % (k, CALLABLES[held[k]] if rng.random() < .7 else rng.choice(SIGNATURES), rng.choice(RESULTS + ["any", "int", "string"]), args()))
        s.add(*ops)
    c.validate("CallablesTrace", prog.result(), s.all, label="type-erased functions")
    mc.result()


# ---------------------------------------------------------------------------------------------- dumps
def c27(c):
    prog = c.compile("drv_units")
    mc = c.model_check("HexTextMC", "HexTextMC.cfg", workers=3)
    rng, s = c.rng, Scenarios()
    fills = [b" ", b"*", b"0", b"x"]

    def dump(kind, d, at):
        return "dump %s %s %d %d %s" % (kind, enc(d), at, rng.randrange(32), enc(rng.choice(fills)))
    addresses = [0, 0, 1, 15, 16, 255, 4096, 65535, 65536, 1000000, 268435455, 268435456, 2000000000]
    for n in range(0, 70 if c.quick else 200):
        ops = []
        for kind in "spv8t":
            ops.append(dump(kind, content(rng, n), rng.choice(addresses)))
        if n % 2 == 0:
            ops.append(dump("2", content(rng, n), rng.choice(addresses)))
        if n % 4 == 0:
            ops.append(dump("4", content(rng, n), rng.choice(addresses)))
        if n == 21:
            ops.append(dump("a", content(rng, n), 7))
        s.add(*ops)
    s.add(*[dump("s", bytes(range(i, i + 16)), i) for i in range(0, 256, 16)])
    s.add(dump("s", bytes(range(256)), 3), dump("p", bytes(range(255, -1, -1)), 0), dump("t", bytes(range(256)), 0))
    for _ in range(100 if c.quick else 3000):
        s.add(*[dump(rng.choice("spv8t"), content(rng, rng.choice([rng.randrange(60), 16, 32, 48, 200])), rng.choice(addresses)) for _ in range(3)])
    for _ in range(120 if c.quick else 3000):
        kind = rng.choice("sv24")
        a, b = rng.choice([0, 1, 2, 7, 8, 15, 16, 17, 30]), rng.choice([0, 1, 2, 8, 16, 31])
        a, b = (2 * a, 2 * b) if kind == "2" else (a, 4 * b) if kind == "4" else (a, b)
        s.add("two %s %s %s" % (kind, enc(content(rng, a)), enc(content(rng, b))))
    s.add(dump("s", content(rng, 3000), 100))
    c.validate("HexTextTrace", prog.result(), s.all, label="dumps")
    mc.result()


# ------------------------------------------------------------------------------------------ network buffers
SOURCES = {1: ["a1", "s1", "k1", "v1", "t1", "w1", "r1"], 2: ["a2", "s2", "v2", "t2", "w2"], 4: ["a4", "s4", "k4", "v4", "t4", "w4"], 8: ["a8", "s8", "v8"]}


def c28(c):
    prog = c.compile("drv_buffers")
    mc = c.model_check("BuffersMC", "BuffersMC.cfg", env={"MODE": "check"}, workers=3)
    rng, s = c.rng, Scenarios()
    kinds = sorted(sum(SOURCES.values(), []))
    edge = [0, 1, 2, 3, 5, 7, 8, 9, 1000]
    for kind in kinds:   # everything a source can be made of, whole and limited
        for n in [0, 1, 3, 15, 16, 255, 70000]:
            s.add(*["make %d %s %d %d %d" % (rng.randrange(1, 9), kind, n, l, rw) for rw in (0, 1) for l in [-1] + edge + [n, n + 1, max(0, n - 1), 4 * n, 100000]])
    walks = c.generate("BuffersMC", "BuffersGen.cfg", env={"MODE": "gen"}, simulate=8 if c.quick else 60, depth=20)
    for g in rng.sample(walks, min(len(walks), 600 if c.quick else 6000)):
        ops = []
        for o in g:
            if o[0] == "make":
                ops.append("make %d %s %d %d %d" % (o[1], rng.choice(SOURCES[o[2]]), o[3], o[4], o[5]))
            elif o[0] == "copy":
                ops.append("copy %d %d %d %d" % (o[1], o[2], o[3], o[4]))
            else:
                ops.append("advance %d %d" % (o[1], o[2]))
        s.add(*ops)
    for _ in range(500 if c.quick else 15000):
        ops = ["make %d %s %d %d %d" % (k, rng.choice(kinds), rng.choice([0, 1, 2, 9, 100, 5000]), rng.choice([-1, -1, 0, 1, 4, 50, 5000]), rng.random() < .6) for k in (1, 2, 3)]
        for _ in range(rng.randrange(3, 25)):
            k, r = rng.randrange(1, 5), rng.random()
            if r < .3:
                ops.append("copy %d %d %d %d" % (k, rng.randrange(1, 5), rng.choice([-1, 0, 1, 3, 8, 60, 100000]), rng.random() < .6))
            elif r < .9:
                ops.append("advance %d %d" % (k, rng.choice([0, 0, 1, 1, 2, 3, 7, 8, 60, 6000, 2000000000])))
            else:
                ops.append("make %d %s %d %d %d" % (k, rng.choice(kinds), rng.randrange(20), rng.choice([-1, rng.randrange(20)]), rng.random() < .6))
        s.add(*ops)
    c.validate("BuffersTrace", prog.result(), s.all, label="network buffers")
    mc.result()


CHECKS = {"C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C26": c26, "C27": c27, "C28": c28}
