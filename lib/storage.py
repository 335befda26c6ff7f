"""Storages used directly, and copies between them: B06, F07."""
from vt import script
import conc
from bits import data, hx

KINDS = ("mem", "grow", "grow", "syncr", "syncw", "filer", "filew", "filerw")
FAR = 5 * 2**30


def B06(ctx):
    rng, sc = ctx.rng, []
    exe = ctx.build("storage", ["storage_driver.cpp"])
    for i in range(9000 if ctx.thorough else 1200):
        kind = KINDS[i % len(KINDS)]
        d = b"" if kind in ("grow", "syncw", "filew") else data(rng, rng.choice((0, 1, 5, 8, 16, 40)))
        base = FAR if kind in ("syncr", "syncw", "filer", "filew") and i % 4 == 0 else 0
        first = "%d" % rng.choice((1, 4, 16, 100)) if kind == "grow" else hx(d)
        n, p, ops = len(d), 0, []
        rd, wr = kind in ("mem", "grow", "syncr", "filer", "filerw"), kind in ("grow", "syncw", "filew", "filerw")
        for _ in range(rng.randrange(3, 25)):
            k = rng.choice((["read"] * 3 if rd else []) + (["write"] * 3 if wr else []) + ["seek", "flush"])
            if k == "read":
                m = rng.choice((1, 2, 3, 8, 9, 16, 50, n, max(n - p, 0), max(n - p, 0) + 1))
                ops.append("read %d" % m)
                p += max(0, min(m, n - p))
            elif k == "write":
                b = data(rng, rng.choice((1, 1, 2, 3, 7, 8, 20, 130)))
                ops.append("write " + b.hex())
                p += len(b)
                n = max(n, p)
            elif k == "seek":
                p = rng.choice((0, n, rng.randrange(n + 1), rng.randrange(n + 1)) + ((n + 3,) if kind not in ("mem", "grow") else ()))
                ops.append("seek %d" % p)
            else:
                ops.append("flush")
        sc.append(script("s%d" % i, "%s %d %s" % (kind, base, first), ops))
    ctx.conform("StorageTrace", sc, lambda s: ctx.drive(exe, s))


def F07(ctx):
    rng, sc = ctx.rng, []
    ctx.model("CopyStream", "CopyStream.cfg", what="reads issued ahead, handed on and stored by two more threads: complete and in order when the call returns, few at a time, always ends")
    t = "|-fsanitize=thread"
    exe = ctx.build("copy", ["vsched.cpp", "uvstub.cpp", "copy_driver.cpp" + t],
                    core=[s + t for s in conc.SRC + ["src/mg/core/file.cpp", "src/mg/core/bitstream.cpp"]], asan=False,
                    link=["-rdynamic"], libs=("-luv", "-lpthread", "-ldl"))
    for i in range(900 if ctx.thorough else 130):
        dk = rng.choice(("grow", "sync", "file", "file", "late", "late"))
        had = data(rng, rng.choice((0, 0, 1, 3, 10)))
        sk = [rng.choice(("mem", "grow", "sync", "file", "file", "late", "late")) for _ in (0, 1)]
        sd = [data(rng, rng.choice((0, 1, 2, 7, 12, 16, 24, 33, 48))) for _ in (0, 1)]
        ops = []
        for _ in range(rng.choice((1, 2, 2, 3))):
            x = rng.randrange(2)
            n = len(sd[x])
            a = rng.choice((0, 0, 0, n // 2, rng.randrange(n + 1)))
            b = 0 if rng.random() < 0.6 else rng.choice((n, n + 4, rng.randrange(a, n + 1)))
            if b and b < a:
                b = 0
            ops.append("copy %d %d %d %d" % (x, rng.choice((1, 1, 2, 3, 4, 5, 8, 16, 64)), a, b))
        fault = i % 26 == 25     # a storage that fails
        if fault:
            dk, sk[0] = rng.choice((("file", "mem"), ("late", "file"), ("file", "file")))
            if not sd[0]:
                sd[0] = b"abcdef"
            ops = ["copy 0 4 0 0 %d" % rng.choice((-28, -5))]
        n = 3 if fault else 1200 if ctx.thorough else 200
        sc.append(script("c%d" % i, "%d %d %d %s %s %s %s %s %s" % (n, rng.randrange(10**6), rng.choice((1, 2, 3)), dk, hx(had), sk[0], hx(sd[0]), sk[1], hx(sd[1])), ops))
    ctx.conform("CopyTrace", sc, lambda s: ctx.drive(exe, s, counters=True),
                classify=lambda t, k, e: "a copy whose file fails never returns" if t["faults"] and e.get("op") in ("long", "stuck", "hang") else e.get("op"))


CHECKS = {"B06": B06, "F07": F07}
