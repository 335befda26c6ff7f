"""Base 64 and section checksum: E01, E02, E03."""
import base64
from vt import script


def hx(b):
    return b.hex() if b else "-"


def blocks(rng, b):
    out = []
    while b:
        n = rng.choice((0, 1, 1, 2, 3, 4, 5, 7, len(b)))
        out.append(b[:n])
        b = b[n:]
    if not out or rng.random() < 0.2:
        out.append(b"")
    return out


def rnd(rng, n):
    if rng.random() < 0.2:
        return bytes(rng.choice((0, 255, 127, 128)) for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def exe(ctx):
    from vt import REPO
    return ctx.build("codec", ["codec_driver.cpp"], core=["src/b64/src/cencode.cpp", "src/b64/src/cdecode.cpp", "src/mg/media/wincrc.cpp"],
                     flags=["-I" + REPO + "/src/mg/media"], libs=())


def go(ctx, sc):
    x = exe(ctx)
    ctx.model("CodecMC", "CodecMC.cfg", what="encoding fed in blocks is that of the whole, decodes to the input, and a section with its checksum has checksum zero")
    ctx.conform("CodecTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))


def E01(ctx):
    rng, sc = ctx.rng, []
    for i in range(12000 if ctx.thorough else 1500):
        ops = []
        for _ in range(2):
            for b in blocks(rng, rnd(rng, rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 30, 64, 100) if i % 4 else range(0, 40)))):
                ops.append("eblock " + hx(b))
            ops.append("eend")
        sc.append(script("e%d" % i, "", ops))
    go(ctx, sc)


def E02(ctx):
    rng, sc = ctx.rng, []
    for i in range(12000 if ctx.thorough else 1500):
        ops = []
        for _ in range(2):
            t = base64.b64encode(rnd(rng, rng.randrange(0, 60)))
            k = rng.random()
            if k < 0.3:      # line breaks
                w = rng.randrange(1, 20)
                t = b"\r\n".join(t[j:j + w] for j in range(0, len(t), w))
            elif k < 0.6:    # anything in between
                t = b"".join(bytes([c]) + (bytes(rng.randrange(256) for _ in range(rng.randrange(3))) if rng.random() < 0.2 else b"") for c in t)
            elif k < 0.7:    # only that
                t = bytes(rng.choice(b"{|}~,.-*:;<>?@[]^_` \x80\xff\xab") for _ in range(rng.randrange(0, 20)))
            elif k < 0.8:    # cut short
                t = t[:rng.randrange(len(t) + 1)]
            for b in blocks(rng, t):
                ops.append("dblock " + hx(b))
            ops.append("dend")
        sc.append(script("d%d" % i, "", ops))
    go(ctx, sc)


def E03(ctx):
    rng, sc = ctx.rng, []
    for i in range(6000 if ctx.thorough else 800):
        ops = []
        for _ in range(4):
            ops.append("crc %s %d" % (hx(rnd(rng, rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 13, 20, 40, rng.randrange(0, 190))))), rng.randrange(4)))
        sc.append(script("c%d" % i, "", ops))
    go(ctx, sc)


CHECKS = {"E01": E01, "E02": E02, "E03": E03}
