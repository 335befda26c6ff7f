"""Bit streams: B01..B06."""
from vt import script
import conc

RS = ("mem", "whole", "sync", "late", "late", "file")


def data(rng, n):
    m = rng.random()
    if m < 0.15:
        return bytes(rng.choice((0, 255)) for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def hx(b):
    return b.hex() if b else "-"


def reader(ctx):
    return ctx.build("bits", ["bits_driver.cpp"])


def gen_read(ctx, kinds, count, storages=RS, maxops=30):
    """Random reading scripts; positions are tracked so that bulk reads start at byte boundaries."""
    rng = ctx.rng
    out = []
    for i in range(count):
        st = storages[i % len(storages)]
        B = rng.choice((8, 8, 9, 10, 12, 13, 16, 17, 24, 31, 32, 5, 1))
        N = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, B, B + 1, 2 * B, 2 * B - 1, 2 * B + 1, 3 * B, rng.randrange(1, 70)))
        if st == "whole":
            B = max(N, 1)
            N = max(N, 1)
        d = data(rng, N)
        nb, p, ops = 8 * N, 0, []
        al = lambda x, n: x if x % n == 0 else x + n - x % n
        for _ in range(rng.randrange(3, maxops)):
            k = rng.choice(kinds)
            if st == "late" and rng.random() < 0.4:
                ops.append("d")
            if k in ("get", "next", "sget", "lget"):
                n = rng.choice((0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 32, rng.randrange(33)))
                if rng.random() < 0.03 and k in ("get", "next"):
                    n = rng.choice((33, -1, 64))
                ops.append("%s %d" % (k, n))
                if k != "next" and 0 <= n <= 32:
                    if p + n <= nb:
                        p += n
                    elif k == "lget":
                        break
            elif k == "nextx":
                n, a = rng.randrange(33), rng.choice((0, 0, 8, 16, 32, 24))
                if a and al(p, a) > nb:
                    continue
                ops.append("nextx %d %d %d" % (n, rng.randrange(2), a))
                if a:
                    p = al(p, a)
            elif k == "skip":
                n = rng.choice((0, 1, 5, 8, 31, 32, 40, 64, 100, rng.randrange(0, 400), 8 * B, 16 * B))
                ops.append("skip %d" % n)
                p = min(nb, p + n)
            elif k == "align":
                n = rng.choice((8, 8, 16, 24, 32, 64, 12, 128))
                ops.append("align %d" % n)
                if n % 8 == 0:
                    if al(p, n) > nb:
                        break
                    p = al(p, n)
            elif k == "seek":
                q = rng.choice((0, N, rng.randrange(N + 1), rng.randrange(N + 1), p // 8, max(0, p // 8 - rng.randrange(12)), min(N, p // 8 + rng.randrange(12))))
                ops.append("seek %d" % q)
                p = 8 * q
            elif k == "read":
                if p % 8:
                    n = 8 - p % 8
                    ops.append("get %d" % n)
                    p += n
                n = rng.choice((0, 1, 2, 3, 4, B, B + 1, 2 * B, N, N + 3, rng.randrange(0, 80)))
                ops.append("read %d" % n)
                p = min(nb, p + 8 * n)
            elif k == "code":
                w, a = rng.choice((1, 3, 8, 12, 16, 24, 32)), rng.choice((0, 8, 16))
                if a and al(p, a) > nb:
                    continue
                # often a code that is there
                if rng.random() < 0.8 and p + w <= nb:
                    q = rng.randrange(p, nb - w + 1)
                    v = int("".join("%d" % ((d[j // 8] >> (7 - j % 8)) & 1) for j in range(q, q + w)), 2)
                else:
                    v = rng.randrange(1 << w)
                ops.append("code %d %d %d" % (v, w, a))
                # position from here on depends on the search
                ops.append("eof")
                break
            elif k in ("eof",):
                ops.append("eof")
            elif k == "has":
                ops.append("has %d" % rng.choice((0, 1, 8, 12, 24, 32, 64, rng.randrange(0, 60))))
            if rng.random() < 0.15:
                ops.append("eof")
        out.append(script("r%d" % i, "r %s %d %s" % (st, B, hx(d)), ops))
    return out


def gen_model(ctx, cfg, want):
    """Scripts from the double buffer model: every short sequence of consume/seek/deliver steps."""
    hs = ctx.scripts_from("DoubleBufferGen", cfg)
    if len(hs) > want:
        hs = ctx.rng.sample(hs, want)
    out = []
    U = 4
    for i, h in enumerate(hs):
        n, b = h["n"], h["b"]
        d = data(ctx.rng, n * U)
        ops = []
        for a in h["h"]:
            if a[0] == "c":
                ops.append(ctx.rng.choice(["get 32"] * a[1] if a[1] == 1 else ["skip %d" % (32 * a[1]), "read %d" % (U * a[1])]))
            elif a[0] == "s":
                ops.append("seek %d" % (a[1] * U))
            elif a[0] == "d":
                ops.append("d")
            elif a[0] == "e":
                ops.append("eof")
        ops.append("eof")
        ops.append("read %d" % (n * U + 1))
        out.append(script("m%d" % i, "r late %d %s" % (b * U, hx(d)), ops))
    return out


def run_read(ctx, kinds, quick, thorough, storages=RS):
    exe = reader(ctx)
    ctx.model("DoubleBuffer", "DoubleBuffer.cfg", what="double buffering with asynchronous delivery refines the plain byte sequence")
    n = thorough if ctx.thorough else quick
    sc = gen_read(ctx, kinds, n, storages)
    sc += gen_model(ctx, "DoubleBufferGen.cfg", n // 2)
    ctx.conform("BitStreamTrace", sc, lambda s: ctx.drive(exe, s), classify=lambda t, k, e: e.get("op"))
    sc = gen_read(ctx, kinds, 800 if ctx.thorough else 120, ("late", "late", "file"), 14)
    run_scheduled(ctx, sc, 3000 if ctx.thorough else 300)


def run_scheduled(ctx, sc, n):
    """The same scripts with the storage delivering on another thread, under chosen schedules."""
    exe = scheduled(ctx)
    sc = [" ".join(s.split(" ", 2)[:2] + ["%d %d" % (n, ctx.rng.randrange(10**6)), s.split(" ", 2)[2]]) for s in sc]
    ctx.conform("BitStreamTrace", sc, lambda s: ctx.drive(exe, s, counters=True), classify=lambda t, k, e: e.get("op"))


def scheduled(ctx):
    t = "|-fsanitize=thread"
    return ctx.build("bitsx", ["vsched.cpp", "uvstub.cpp", "bits_driver.cpp" + t],
                     core=[s + t for s in conc.SRC + ["src/mg/core/file.cpp", "src/mg/core/bitstream.cpp"]], asan=False,
                     flags=["-DVT_SCHED"], link=["-rdynamic"], libs=("-luv", "-lpthread", "-ldl"))


def B01(ctx):
    run_read(ctx, ["get", "get", "next", "sget", "lget", "nextx"], 1600, 20000)


def B02(ctx):
    run_read(ctx, ["get", "skip", "skip", "align", "seek", "seek", "code", "nextx"], 1600, 20000)


def B03(ctx):
    run_read(ctx, ["get", "read", "read", "eof", "has", "seek", "skip"], 1600, 20000)


WS = ("mem", "sync", "file", "mem")


def gen_write(ctx, count, seeks, storages=WS):
    rng = ctx.rng
    out = []
    for i in range(count):
        st = storages[i % len(storages)]
        B = rng.choice((8, 8, 9, 12, 13, 16, 32, 3, 64))
        init = rng.choice((1, 2, 8, 16, 100, 200))
        pos, size, ops = 0, 0, []   # bits
        al = lambda x, n: x if x % n == 0 else x + n - x % n

        def boundary():
            nonlocal pos, size
            if pos % 8:
                ops.append(rng.choice(["align 8", "put 0 %d" % (8 - pos % 8), "skip %d" % (8 - pos % 8)]))
                pos = al(pos, 8)
                size = max(size, pos)
        for _ in range(rng.randrange(3, 40)):
            k = rng.choice(["put"] * 6 + ["lput", "lput", "skip", "align", "code", "write", "flush"] + (["seek", "seek"] if seeks else []))
            if k in ("put", "lput"):
                n = rng.choice((0, 1, 2, 7, 8, 9, 16, 24, 25, 31, 32, 32, rng.randrange(33)))
                ops.append("%s %d %d" % (k, rng.choice((0, 0xffffffff, rng.randrange(1 << 32), rng.randrange(1 << 32))), n))
                pos += n
            elif k == "skip":
                n = rng.choice((0, 1, 8, 33, 64, 100, rng.randrange(200)))
                ops.append("skip %d" % n)
                pos += n
            elif k in ("align", "code"):
                n = rng.choice((8, 16, 24, 32, 64, 12))
                ops.append("%s %d" % (k, n))
                if n % 8 == 0:
                    pos = al(pos, n)
            elif k == "write":
                boundary()
                b = data(rng, rng.choice((1, 2, 5, 8, 17, 40, 100)))
                ops.append("write %s" % hx(b))
                pos += 8 * len(b)
            elif k == "flush":
                ops.append("flush")
            elif k == "seek":
                boundary()
                q = rng.choice((0, size // 8, rng.randrange(0, size // 8 + 1)))
                ops.append("seek %d" % q)
                pos = 8 * q
            size = max(size, pos)
        boundary()
        ops.append("flush")
        out.append(script("w%d" % i, "w %s %d %d" % (st, B, init), ops))
    return out


def B04(ctx):
    exe = reader(ctx)
    ctx.model("BitStreamMC", "BitStreamMC.cfg", what="what is written is what is read back")
    sc = gen_write(ctx, 12000 if ctx.thorough else 1500, False)
    ctx.conform("BitStreamTrace", sc, lambda s: ctx.drive(exe, s))
    run_scheduled(ctx, gen_write(ctx, 400 if ctx.thorough else 60, False, ("file",)), 3000 if ctx.thorough else 300)


def B05(ctx):
    exe = reader(ctx)
    ctx.model("BitStreamMC", "BitStreamMC.cfg", what="what is written is what is read back; rewriting touches only what it covers")
    # overlapping writes of one file are not ordered while in flight (see DESIGN.md): files are covered by F03
    sc = gen_write(ctx, 12000 if ctx.thorough else 1500, True, ("mem", "sync"))
    ctx.conform("BitStreamTrace", sc, lambda s: ctx.drive(exe, s))


CHECKS = {"B01": B01, "B02": B02, "B03": B03, "B04": B04, "B05": B05}
