"""Strings, buffers, splitter, command line: M01, T01, T02, T03, C01."""
from vt import script

CORE = ["src/mg/core/nx/util.cpp"]


def hx(b):
    return b.hex() if b else "-"


def exe(ctx):
    return ctx.build("text", ["text_driver.cpp"], core=CORE)


def word(rng, n=None, alpha=None):
    if n is None:
        n = rng.choice((0, 1, 1, 2, 3, 3, 4, 5, 8, 9, 15, 16, 17, 40))
        if rng.random() < 0.03:
            n = rng.choice((1023, 1024, 1025, 2047, 2048, 2500))
    alpha = alpha or rng.choice((b"ab", b"ab", b"abc,", b"abcXYZ0189 .:-/", bytes(range(1, 256))))
    return bytes(rng.choice(alpha) for _ in range(n))


def gen_str(ctx, count, kinds):
    rng = ctx.rng
    out = []
    for c in range(count):
        h, bufs, ops = [None] * 5, [], []

        def val(i):
            return bufs[h[i]]

        def fresh(i, t):
            bufs.append(t)
            h[i] = len(bufs) - 1

        def op(name, i, g=0, t=b"", n=0, m=0):
            ops.append("%s %d %d %s %d %d" % (name, i, g, hx(t), n, m))
        for _ in range(rng.randrange(4, 22)):
            i, g, g2 = (rng.randrange(1, 5) for _ in range(3))
            k = rng.choice(kinds)
            live = h[i] is not None
            liveg = h[g] is not None
            if not live and k not in ("new", "assign", "empty", "null", "copy", "append", "isnull", "cat", "catlit", "litcat", "sub", "clone"):
                k = "new"
            if k in ("copy", "clone", "addh", "cat", "catlit", "litcat", "sub", "eqh", "less") and not liveg and k != "copy":
                k = "new"
            if k == "cat" and h[g2] is None:
                k = "new"
            t = word(rng)
            if k in ("new", "assign"):
                if rng.random() < 0.2:
                    t = rng.choice((b"true", b"1", b"yes", b"TRUE", b"True", b"tru", b"truee", b"no", b"0", b""))
                op(k, i, 0, t)
                fresh(i, t)
            elif k == "empty":
                op(k, i, 0, b"", rng.choice((-1, 1, 2, 8, 100)))
                fresh(i, b"")
            elif k == "null":
                op(k, i)
                h[i] = None
            elif k == "copy":
                op(k, i, g, b"", rng.randrange(2))
                h[i] = h[g]
            elif k == "clone":
                op(k, i, g)
                fresh(i, val(g))
            elif k in ("add", "append"):
                op(k, i, 0, t)
                if h[i] is None:
                    fresh(i, t)
                else:
                    bufs[h[i]] += t
            elif k == "addnull":
                op(k, i)
            elif k == "addnum":
                n = rng.randrange(5)
                lo, hi = ((-2**63, 2**63 - 1), (0, 2**64 - 1), (-2**31, 2**31 - 1), (0, 2**32 - 1), (-2**23, 2**23))[n]
                v = rng.choice((lo, hi, 0, 1, max(lo, -1), hi // 2, rng.randrange(lo, hi), rng.randrange(max(lo, -1000), 1000)))
                t = (("%.6f" % (v / 64.0)) if n == 4 else str(v)).encode()
                if n == 4 and t == b"-0.000000":
                    t = b"0.000000"
                op(k, i, 0, t, n)
                bufs[h[i]] += t
            elif k == "addh":
                if len(val(i)) > 3000:
                    continue
                op(k, i, g)
                bufs[h[i]] = val(i) + val(g)
            elif k == "cat":
                if len(val(g)) > 3000:
                    continue
                op(k, i, g, b"", g2)
                fresh(i, val(g) + val(g2))
            elif k == "catlit":
                op(k, i, g, t)
                fresh(i, val(g) + t)
            elif k == "litcat":
                op(k, i, g, t)
                fresh(i, t + val(g))
            elif k == "sub":
                L = len(val(g))
                b = rng.randrange(L + 1)
                n = rng.choice((0, 1, 2, L - b, max(0, L - b - 1), L - b + 1, L, L + 5, 10000, rng.randrange(L + 3)))
                op(k, i, g, b"", b, n)
                fresh(i, val(g)[b:b + n])
            elif k in ("find", "rfind"):
                v = val(i)
                b = rng.choice((0, 0, rng.randrange(len(v) + 1), len(v)))
                if rng.random() < 0.7 and len(v):
                    x = rng.randrange(len(v))
                    t = v[x:x + rng.randrange(1, 6)]
                t = t or b"a"
                op(k, i, 0, t, b)
            elif k == "eq":
                if rng.random() < 0.6:
                    t = val(i)
                    if rng.random() < 0.4:
                        t = t[:-1] if rng.random() < 0.5 else t + b"a"
                op(k, i, 0, t)
            elif k in ("eqh", "less"):
                op(k, i, g)
            elif k in ("size", "isnull", "tobool"):
                op(k, i)
            elif k == "toint":
                n = rng.randrange(4)
                lo, hi = ((-2**63, 2**63 - 1), (0, 2**64 - 1), (-2**31, 2**31 - 1), (-2**53, 2**53))[n]
                v = rng.choice((lo, hi, 0, 1, rng.randrange(lo, hi), rng.randrange(max(lo, -1000), 1000)))
                txt = str(v)
                if rng.random() < 0.3 and v >= 0:
                    txt = rng.choice(("+", "00", "0", " ", "\t ", "+0")) + txt
                if rng.random() < 0.3:
                    txt += rng.choice((" z", "z", "-", ",5", " 12"))
                if rng.random() < 0.12:
                    txt = rng.choice(("", " ", "z1", "-", "+", "- 5", ",", "/"))
                op("assign", i, 0, txt.encode())
                fresh(i, txt.encode())
                op(k, i, 0, b"", n)
            elif k == "hexapp":
                t = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 20)))
                op(k, i, 0, t)
                bufs[h[i]] += t.hex().upper().encode()
            elif k == "hexext":
                raw = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 20)))
                t = raw.hex().encode()
                t = t.upper() if rng.random() < 0.5 else t
                pre = word(rng, rng.randrange(0, 4))
                op("assign", i, 0, pre + t)
                fresh(i, pre + t)
                op(k, i, 0, b"", len(pre), rng.choice((len(raw), rng.randrange(len(raw) + 1))))
            elif k == "getbuf":
                if not t:
                    continue
                op(k, i, 0, t, rng.choice((0, 0, 1, 7, 100)))
                bufs[h[i]] += t
            elif k == "clear":
                op(k, i)
                bufs[h[i]] = b""
            elif k == "fmt":
                n = rng.randrange(4)
                if n == 0:
                    m, t = 0, word(rng)
                elif n == 1:
                    m = rng.choice((0, -1, 2**31 - 1, -2**31, rng.randrange(-500, 500)))
                    t = str(m).encode() + word(rng, rng.randrange(0, 9), b"xyz")
                elif n == 2:
                    m, t = 0, word(rng, rng.randrange(1, 30))
                else:
                    m = rng.choice((0, 2**63 - 1, rng.randrange(2**40)))
                    t = str(m).encode() + word(rng, rng.randrange(0, 9), b"xyz") + ("%x" % rng.randrange(16, 256)).encode()
                op(k, i, 0, t, n, m)
                bufs[h[i]] += t
        out.append(script("s%d" % c, "str", ops))
    return out


def gen_val(ctx, count):
    rng = ctx.rng
    out = []
    for c in range(count):
        ops = []
        for _ in range(rng.randrange(2, 8)):
            al = rng.choice((b"ab", b"a,", b"abc,;", b"ab:= "))
            sep = word(rng, rng.choice((1, 1, 1, 2, 2, 3)), al)
            if rng.random() < 0.5:
                t = word(rng, rng.randrange(0, 30), al)
            else:
                t = b"".join(rng.choice((sep, word(rng, rng.randrange(0, 4), al))) for _ in range(rng.randrange(0, 8)))
            k = rng.random()
            if k < 0.45:
                ops.append("split %s %s" % (hx(t), hx(sep)))
            elif k < 0.6:
                ops.append("resplit %s %s %s" % (hx(t), hx(sep), hx(word(rng, rng.randrange(1, 12), b"a,"))))
            else:
                ops.append("replace %s %s %s" % (hx(t), hx(word(rng, rng.randrange(0, 5), al)), hx(sep)))
        out.append(script("v%d" % c, "val", ops))
    return out


def gen_buf(ctx, count):
    rng = ctx.rng
    out = []
    for c in range(count):
        ops, full = [], 0
        cap = rng.choice((1, 2, 3, 4, 8, 16, 64))

        def op(name, t=b"", n=0, m=0):
            ops.append("%s %s %d %d" % (name, hx(t), n, m))
        for _ in range(rng.randrange(4, 30)):
            k = rng.choice(("badd", "badd", "badd", "baddb", "bput", "bput", "bprep", "bset", "bat", "bread", "bread", "breset", "bback", "bback"))
            t = bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 1, 2, 3, cap, cap + 1, rng.randrange(1, 40)))))
            if k == "badd":
                op(k, t)
                full += len(t)
            elif k == "baddb":
                if full > 300:
                    continue
                op(k)
                full *= 2
            elif k == "bput":
                n = rng.choice((0, 1, 5, 30))
                if len(t) + n == 0:
                    continue
                op(k, t, n)
                full += len(t)
            elif k == "bprep":
                op(k, b"", rng.choice((1, 2, cap, 2 * cap, rng.randrange(1, 100))))
            elif k in ("bset", "bat"):
                if full:
                    op(k, bytes([rng.randrange(256)]), rng.randrange(full))
            elif k == "bread":
                m = rng.choice((0, full, full + 1, full + 7, rng.randrange(full + 1)))
                op(k, b"", rng.choice((0, 1, 5, full, 2 * full + 3)), m)
            elif k == "breset":
                op(k)
                full = 0
            elif k == "bback":
                n = rng.randrange(full + 1)
                op(k, b"", n, rng.randrange(2))
                full -= n
        out.append(script("b%d" % c, "buf %d %d" % (rng.choice((8, 64)), cap), ops))
    return out


def run(ctx, sc):
    x = exe(ctx)
    ctx.conform("TextTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))


def M01(ctx):
    run(ctx, gen_buf(ctx, 20000 if ctx.thorough else 2500))


BASIC = ["new", "assign", "empty", "null", "copy", "copy", "copy", "clone", "add", "add", "add", "addnull", "append", "append", "addh", "addh", "cat", "catlit",
         "litcat", "sub", "sub", "find", "rfind", "size", "eq", "eqh", "less", "isnull", "tobool", "getbuf", "clear"]


def T01(ctx):
    run(ctx, gen_str(ctx, 20000 if ctx.thorough else 2500, BASIC))


def T02(ctx):
    run(ctx, gen_str(ctx, 16000 if ctx.thorough else 2000, ["new", "copy", "addnum", "addnum", "toint", "toint", "hexapp", "hexext", "hexext", "fmt", "fmt", "tobool"]))


def T03(ctx):
    run(ctx, gen_val(ctx, 16000 if ctx.thorough else 2000))


CHECKS = {"M01": M01, "T01": T01, "T02": T02, "T03": T03}


def gen_cmd(ctx, count):
    rng = ctx.rng
    out = []
    names = [b"input", b"output", b"kind", b"i", b"in", b"validate", b"zz", b"x", b"-help"]
    for c in range(count):
        ops, decl = [], []
        if rng.random() < 0.75:
            pool = rng.sample(names, rng.randrange(1, 6))
            if rng.random() < 0.1:
                pool.append(pool[0])
            for n in pool:
                sc = rng.choice((0, 0, 105, 111, 107, 120, 48))
                ops.append("add %s %s %d %d" % (hx(n), rng.choice("sib"), rng.random() < 0.3, sc))
                decl.append(n)
            asks = set(decl)
            for _ in range(rng.choice((1, 1, 2))):
                args = []
                for _ in range(rng.randrange(0, 8)):
                    n = rng.choice(decl + [b"i", b"o", b"k", b"x", b"0", b"other", b"zzz", b"", b"in"])
                    asks.add(n)
                    v = rng.choice((b"", b"5", b"-12", b"a:b", b"a=b", b"http://h:80/p?q=1", b"=", b":", b"00", b"9223372036854775807", word(rng, rng.randrange(0, 6), b"ab:=-")))
                    a = rng.choice((b"-", b"-", b"--")) + n
                    sep = rng.choice((b":", b":", b"=", b"", b""))
                    if sep:
                        a += sep + v
                    if rng.random() < 0.1:
                        a = rng.choice((b"", b"-", b"--", b"plain", b"plain:x", b"---z", b"-:v", b"--:v", b"-=v"))
                        asks.add(b"")
                        asks.add(b"-z")
                    args.append(a)
                ops.append("proc " + " ".join(hx(a) for a in args))
                for n in sorted(asks):
                    if b":" in n or b"=" in n:
                        continue
                    ops.append("ask %s %d" % (hx(n), rng.random() < 0.3))
            out.append(script("c%d" % c, "named", ops))
        else:
            for _ in range(rng.randrange(1, 5)):
                args = []
                for _ in range(rng.randrange(0, 9)):
                    k = rng.random()
                    if k < 0.5:
                        a = bytes([rng.choice(b"-/")]) + bytes([rng.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ?")]) + rng.choice((b"", b"", b"more"))
                        if rng.random() < 0.05:
                            a = rng.choice((b"-", b"/", b"-1", b"--x", b"-#"))
                    else:
                        a = word(rng, rng.randrange(0, 5), b"ab?-")
                        if a[:1] == b"-" and len(a) == 1:
                            a = b"v"
                    args.append(a)
                ops.append("letters " + " ".join(hx(a) for a in args))
            out.append(script("l%d" % c, "letters", ops))
    return out


def C01(ctx):
    x = ctx.build("cmd", ["cmd_driver.cpp"], core=CORE)
    sc = gen_cmd(ctx, 16000 if ctx.thorough else 2000)
    ctx.conform("CmdLineTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))


CHECKS["C01"] = C01
