"""Cutting and joining: J01, J02."""
import struct
from vt import script, VERIF
import media
from media import box, full, u32
from fragments import video, audio, movie, due, cuts, over, late, blob, hns, CORE, AES

VSCALES = ((90000, 9000), (30000, 3003), (10000000, 1000000), (600, 60), (12800, 1280))
ASC = ("1210", "1190", "1208", "1588", "1310", "0a10")
SPS = bytes.fromhex("6764001eacd940a02ff97011000003000100000300320f162d96")
PPS = bytes.fromhex("68ebe3cb22c0")


def exe(ctx):
    return media.build(ctx, "edit", ["edit_driver.cpp"], core=CORE, extra=AES)


def sd_video(sps, pps, w=640, h=368):
    c = b"\1" + sps[1:4] + b"\xff\xe1" + struct.pack(">H", len(sps)) + sps + b"\1" + struct.pack(">H", len(pps)) + pps
    return full(b"stsd", u32(1), box(b"avc1", bytes(6), struct.pack(">H", 1), bytes(16), struct.pack(">HH", w, h), u32(0x480000, 0x480000, 0), struct.pack(">H", 1), bytes(32), struct.pack(">Hh", 24, -1), box(b"avcC", c)))


def sd_audio(asc):
    asc = bytes.fromhex(asc)
    es = bytes.fromhex("0380808022000000048080801440150000000000fa000000fa00") + b"\x05\x80\x80\x80\x02" + asc + b"\x06\x80\x80\x80\x01\x02"
    return full(b"stsd", u32(1), box(b"mp4a", bytes(6), struct.pack(">H", 1), bytes(8), struct.pack(">HHHH", 2, 16, 0, 0), u32(44100 << 16), full(b"esds", es)))


def track(rng, kind, sd, sound=None, lang="und"):
    """A stream of a few seconds."""
    if kind == "v":
        sc, tick = rng.choice(VSCALES)
        k = video(rng, frames=rng.randrange(5, 34), scale=sc, tick=tick, size=14)
    else:
        k = audio(rng, n=rng.randrange(8, 34))
        k.scale, t = sound or rng.choice(((8000, 1024), (44100, 4096), (10000000, 1280000), (48000, 6144)))
        k.durs = [t] * len(k.durs)
    k.samples = [blob(rng, rng.randrange(4, 18)) for _ in k.samples]
    k.stsd, k.lang = sd, lang
    return k


def one(rng, kinds, sds, ms=1000, langs=None):
    while True:
        ts = [track(rng, k, s, lang=g) for k, s, g in zip(kinds, sds, langs or ["und"] * len(kinds))]
        for k in ts:
            k.delay = rng.choice((None, None, None, 1, 20, 40, 100))
            k.offset = k.delay
        b = movie(rng, ts, ms)
        if all(over(k) > 6000000 for k in ts):
            return ts, b


def interval(rng, ts):
    """A part in which every stream presents something; zero for the end means all of it."""
    end = min(over(k) for k in ts)
    if len(ts) == 1 and not ts[0].comps and not ts[0].delay and rng.random() < 0.3:
        a = rng.choice([t for t in (cuts if ts[0].kind == b"vide" else due)(ts[0]) if t < end - 3000000] or [0])
        return a, a + 1                  # a single sample
    lead = ts[next((i for i, k in enumerate(ts) if k.kind == b"vide"), 0)]
    a = rng.choice((0, 0, rng.choice(due(lead)), rng.choice(cuts(lead)), rng.randrange(0, end), max(0, rng.choice(due(rng.choice(ts))) - rng.choice((0, 1)))))
    a = max(0, min(a, end - 5000000))
    if sum(k.kind == b"vide" for k in ts) > 1:
        a = 0                    # a second video is entered anywhere
    b = rng.choice((0, rng.choice(cuts(lead)), rng.randrange(a, end + 10 ** 7), rng.choice(due(rng.choice(ts))) + rng.choice((0, 1))))
    if b and b < a + 4000000:
        b = a + 4000000 + rng.randrange(3000000)
    return a, b


def layout(rng):
    kinds = rng.choice(("va", "va", "va", "av", "v", "v", "a", "a", "vaa", "aa", "avv"))
    return kinds, [sd_video(SPS, PPS) if k == "v" else sd_audio(rng.choice(ASC)) for k in kinds]


def join(rng, i):
    kinds, sds = layout(rng)
    langs = ["".join(rng.choice("abcxyz") for _ in range(3)) if k == "a" and rng.random() < 0.3 else "und" for k in kinds]
    o, fs = [], []
    for n in range(rng.choice((1, 1, 2, 2, 3))):
        ts, b = one(rng, kinds, sds, rng.choice((1000, 1000, 600, 90000)), langs)
        fs.append(ts)
        o.append("file f%d %s" % (n, b.hex()))
    trim = "v" not in kinds and rng.random() < 0.3
    if trim:
        o.append("trim")
    if rng.random() < 0.2:
        o.append("distance %d" % rng.choice((100000, 1000000, 3000000)))
    if rng.random() < 0.15:
        o.append("shift")
    if rng.random() < 0.2:
        o.append("scale %s 0 %d" % (("audio", rng.choice((48000, 90000))) if "a" in kinds and rng.random() < 0.5 else ("video", rng.choice((90000, 10000000)))))
    o.append("start")
    for n in range(rng.choice((1, 1, 2, 2, 3, 4))):
        f = rng.randrange(len(fs))
        a, b = interval(rng, fs[f])
        o.append("add f%d %d %d %d" % (f, a, b, rng.random() < 0.2))
    o.append("end")
    return script("j%d" % i, rng.choice(("sync", "sync", "async")), o)


def refuse(rng, i):
    """Some of the files have other streams."""
    kinds, sds = layout(rng)
    o = []
    fs = []
    for n in range(4):
        k2, s2 = kinds, list(sds)
        if n and rng.random() < 0.6:
            s = rng.randrange(len(kinds))
            c = rng.random()
            if c < 0.3:
                p = rng.randrange(4)
                if p == 0:
                    k2, s2 = kinds + "a", s2 + [sd_audio("1210")]
                elif p == 1 and len(kinds) > 1:
                    k2, s2 = kinds[1:], s2[1:]
                else:
                    q = rng.sample(range(len(kinds)), len(kinds))
                    k2, s2 = "".join(kinds[x] for x in q), [s2[x] for x in q]
            elif kinds[s] == "a":
                s2[s] = sd_audio(rng.choice(ASC))
            else:
                b = bytearray(rng.choice((SPS, PPS)))
                isp = len(b) == len(SPS)
                m = rng.randrange(3)
                if m == 0:
                    b[-1 - rng.randrange(3)] ^= 1 << rng.randrange(7)
                elif m == 1:
                    b = b + b"\x91"
                else:
                    b = b[:-1]
                s2[s] = sd_video(bytes(b), PPS) if isp else sd_video(SPS, bytes(b))
        ts, b = one(rng, k2, s2)
        fs.append(ts)
        o.append("file f%d %s" % (n, b.hex()))
    o.append("start")
    for n in range(4):
        f = 0 if n == 0 else rng.randrange(4)
        a, b = interval(rng, fs[f])
        o.append("add f%d %d %d 0" % (f, a, b))
    o.append("end")
    return script("r%d" % i, "sync", o)


def run(ctx, sc):
    x = exe(ctx)
    ctx.conform("EditTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))


def J01(ctx):
    ctx.model("JoinMC", "JoinMCt.cfg" if ctx.thorough else "JoinMC.cfg", what="the computed shift keeps streams in step, none goes back and one goes on at once")
    run(ctx, [join(ctx.rng, i) for i in range(4000 if ctx.thorough else 300)])


def J02(ctx):
    run(ctx, [refuse(ctx.rng, i) for i in range(3000 if ctx.thorough else 200)])


CHECKS = {"J01": J01, "J02": J02}
