"""Fragments: G01-G05."""
import os
from vt import script, VERIF
import media
from media import Trk, mp4

CORE = ["mp4edit.cpp", "mp4dynamic.cpp", "mp4dynamicinfo.cpp"]
AES = ["-DHAVE_LIBGYPAES", "-I" + VERIF + "/harness/aesstub"]
SEC = 10000000


def exe(ctx):
    return media.build(ctx, "fragment", ["fragment_driver.cpp"], core=CORE, extra=AES)


def blob(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


# ------------------------------------------------------------------ files as encoders make them
def video(rng, frames=None, scale=None, tick=None, gop=None, delay=None, size=12, reorder=None):
    """Closed groups of pictures; each begins with an access point and holds whole pictures out of order."""
    scale, tick = (scale, tick) if scale else rng.choice(((10, 1), (90000, 9000), (30000, 3003), (10000000, 1000000), (25, 2), (600, 50), (12800, 1024)))
    frames = frames or rng.randrange(4, 26)
    gop = gop if gop is not None else rng.choice((1, 2, 3, 4, 5, 6, 8, 0))
    b = reorder if reorder is not None else rng.choice((0, 0, 1, 1, 2, 3))
    sync, show, k = [], [], 0
    while k < frames:
        g = min(frames - k, gop or rng.randrange(1, 9))
        sync.append(k)
        order, at = [0], 1
        while at < g:
            m = min(g - at, 1 + (b if rng.random() < 0.85 else rng.randrange(b + 1)))
            order += [at + m - 1] + list(range(at, at + m - 1))
            at += m
        show += [k + x for x in order]
        k += g
    lag = max(i - s for i, s in enumerate(show))
    durs = [tick] * frames
    comps = [(s - i + lag) * tick for i, s in enumerate(show)] if lag or rng.random() < 0.3 else None
    if not comps and rng.random() < 0.3:
        durs = [tick + rng.randrange(3) for _ in durs]
    return Trk(b"vide", scale, [blob(rng, rng.randrange(1, size)) for _ in durs], durs, comps, sync if len(sync) < frames or rng.random() < 0.7 else None,
               chunks(rng, frames), delay, v=rng.choice((0, 0, 1)))


def audio(rng, n=None, rate=None, delay=None, size=10):
    scale, tick = rng.choice(((8000, 1024), (11025, 1024), (10000000, 1280000), (7350, 1024), (16000, 2048)))
    n = n or rng.randrange(4, 26)
    durs = [tick] * n
    return Trk(b"soun", scale, [blob(rng, rng.randrange(1, size)) for _ in durs], durs, None, None, chunks(rng, n), delay, v=rng.choice((0, 0, 1)))


def chunks(rng, n):
    out = []
    while n:
        c = min(n, rng.randrange(1, 7))
        out.append(c)
        n -= c
    return out


def late(rng, ms):
    return None if rng.random() < 0.6 else rng.choice((1, 20, 40, ms // 10 or 1, ms // 4 or 1))


def movie(rng, tracks, ms=None):
    ms = ms or rng.choice((1000, 600, 90000))
    for k in tracks:
        k.delay = (k.offset or 0) * SEC // ms
    whole = max(sum(k.durs) * ms // k.scale + (k.offset or 0) for k in tracks)
    return mp4(tracks, media.rnd_order(rng, tracks), rng.random() < 0.4, ms, rng, rng.choice((0, 1)), v=rng.choice((0, 0, 1)), whole=whole)


def hns(x, scale):
    return x * SEC // scale


def due(k):
    """When each sample is presented, in units of 100 ns."""
    t, out = 0, []
    for i, d in enumerate(k.durs):
        out.append(hns(t, k.scale) + (hns(k.comps[i], k.scale) if k.comps else 0) + k.delay)
        t += d
    return out


def over(k):
    return max(d + hns(x, k.scale) for d, x in zip(due(k), k.durs)) + 1


def cuts(k):
    """Times a stream can be cut at: where its access points are presented, and its end."""
    d = due(k)
    if k.kind == b"vide" and k.sync is not None:
        return [d[i] for i in k.sync] + [over(k)]
    return sorted(d) + [over(k)]


def between(rng, k):
    c = cuts(k)
    i = rng.randrange(len(c) - 1)
    j = rng.randrange(i + 1, min(len(c), i + 8))
    e = rng.choice((0, 0, 0, 1))
    if rng.random() < 0.06:           # nothing is presented
        return rng.choice(((c[i], c[i]), (c[-1], c[-1] + 10 ** 7), (c[-1] + 10 ** 6, c[-1] + 10 ** 7)))
    return c[i] - (e if i else 0), c[j] - e


SCALES = (10000000, 10000000, 90000, 1000, 48000, 600)


def secret(rng):
    return "- 0" if rng.random() < 0.7 else "%s %d" % (blob(rng, 16).hex(), rng.choice((0, 2)))


def chunk(rng, i, where=None):
    ms = rng.choice((1000, 600))
    ts = [video(rng, delay=late(rng, ms))] if rng.random() < 0.6 else [audio(rng, delay=late(rng, ms))]
    if rng.random() < 0.6:
        ts.append(audio(rng, delay=late(rng, ms)))
    if rng.random() < 0.2:
        ts.reverse()
    o = ["file f " + movie(rng, ts, ms).hex()]
    for n in range(4):
        s = rng.randrange(len(ts))
        k = ts[s]
        a, b = between(rng, k)
        base = rng.choice((a, a, a + rng.randrange(10 ** 6), a + rng.randrange(10 ** 12), a + 4290000000 + rng.randrange(10 ** 7)))
        o.append("chunk f %d %d %d %d %d %d %d %d %s" % (s, rng.choice((s + 1, rng.randrange(1, 99))), a, b, rng.randrange(1, 10 ** 6), k.kind == b"vide", base, rng.choice(SCALES), secret(rng)))
    return script("c%d" % i, rng.choice(("mem", "file")), o)


def cross(rng, i):
    ms = 1000
    o, two = [], []
    rate = rng.choice(((8000, 1024), (10000000, 1280000)))
    for n in "fg":
        k = audio(rng, delay=late(rng, ms))
        k.scale, k.durs = rate[0], [rate[1]] * len(k.durs)
        two.append(k)
        o.append("file %s %s" % (n, movie(rng, [k], ms).hex()))
    for n in range(2):
        d, e = due(two[0]), cuts(two[1])
        a = d[rng.randrange(max(0, len(d) - 5), len(d))]
        j = rng.randrange(1, min(len(e), 6))
        o.append("cross f g 0 %d %d %d %d %d %d 0 %d %d %s" % (rng.randrange(1, 9), a, d[-1] + hns(two[0].durs[-1], two[0].scale), e[0], e[j], rng.randrange(1, 1000), a + rng.randrange(10 ** 9), rng.choice(SCALES), secret(rng)))
    return script("x%d" % i, rng.choice(("mem", "file")), o)


def direct(rng, i, crypt=None):
    o = []
    for n in range(3):
        c = rng.randrange(1, 7) if rng.random() < 0.95 else 0
        tick = rng.choice((1000000, 400000, 333333, 213333))
        first = rng.choice((0, 0xa600000, 0x2000000))
        perm = list(range(c))
        if first and rng.random() < 0.7:
            perm = [0][:c] + sorted(range(1, c), key=lambda x: x + rng.choice((0, 0, -1.5, 1.5)))
        t0 = rng.choice((0, rng.randrange(10 ** 7), rng.randrange(10 ** 13)))
        lag = max(i - p for i, p in enumerate(perm)) if perm else 0
        if rng.random() < 0.3 and first:
            lag = 0                   # some are presented before they are decoded
        p = []
        enc = crypt if crypt is not None else rng.random() < 0.4
        for j, s in enumerate(perm):
            b = blob(rng, rng.choice((rng.randrange(1, 20), rng.randrange(90, 150), rng.choice((96, 111, 112, 113, 127, 128, 129, 144))) if enc else (rng.randrange(1, 20), 40)))
            dec = t0 + j * tick
            p.append("%d %d %d %s" % ((t0 + (s + lag) * tick) if first else dec, dec, tick, b.hex()))
        base = t0 + rng.randrange(10 ** 9) + (10 ** 7 if not lag else 0)
        key = "- 0" if not enc else "%s %d" % (blob(rng, 16).hex(), rng.choice((0, 2)))
        o.append("frag %d %d %d %d %d %s %s" % (rng.randrange(1, 9), rng.randrange(1, 10 ** 5), first, rng.choice(SCALES), base, key, " ".join(p)))
    return script("d%d" % i, "mem", o)


def init(rng, i):
    o = []
    for n in range(6):
        v = rng.random() < 0.6
        if v:
            sps, pps = media.rnd_sps(rng), media.rnd_pps(rng)
            cpd = len(sps).to_bytes(2, "big") + sps + len(pps).to_bytes(2, "big") + pps
        else:
            cpd = bytes.fromhex(rng.choice(("1210", "1190", "1208", "1588")))
        kid = blob(rng, 16).hex() if rng.random() < 0.4 else "-"
        pssh = "-"
        if kid != "-" and rng.random() < 0.6:
            pssh = media.box(b"pssh", blob(rng, rng.randrange(20, 50))).hex()
        dur = rng.choice((0, rng.randrange(10 ** 6, 10 ** 8), rng.randrange(10 ** 9, 4 * 10 ** 9), rng.randrange(43 * 10 ** 8, 10 ** 12), 36000000000))
        o.append("init %s %d %s %d %d %d %s %s" % ("video" if v else "audio", rng.randrange(1, 9), cpd.hex(), rng.choice((64000, 128000, 1000000)), dur, rng.choice(SCALES), kid, pssh))
    return script("i%d" % i, "mem", o)


# ------------------------------------------------------------------ fragments by the book, for the reader
def fragment(rng, seq, dts, kind=None):
    u32, box, full = media.u32, media.box, media.full
    n = rng.randrange(1, 6)
    sizes = [rng.randrange(1, 30) for _ in range(n)]
    durs = [rng.choice((1000, 400000, 1, 0x7fffffff)) for _ in range(n)]
    d = {"durs": rng.random() < 0.7, "sizes": rng.random() < 0.7, "sf": rng.random() < 0.2, "co": rng.random() < 0.6, "first": rng.random() < 0.4, "off": rng.random() < 0.8}
    fl = d["durs"] * 0x100 | d["sizes"] * 0x200 | d["sf"] * 0x400 | d["co"] * 0x800 | d["first"] * 4 | d["off"]
    hf, hd = 0, [u32(rng.randrange(1, 5))]
    if rng.random() < 0.2:
        hf |= 2
        hd.append(u32(1))
    if not d["durs"] or rng.random() < 0.3:
        hf |= 8
        hd.append(u32(4000))
    if not d["sizes"] or rng.random() < 0.3:
        hf |= 16
        hd.append(u32(17))
    if rng.random() < 0.3:
        hf |= 32
        hd.append(u32(0x1010000))
    if not d["sizes"]:
        sizes = [17] * n
    ver = rng.choice((0, 1))
    rows = []
    for i in range(n):
        rows += [u32(durs[i])] if d["durs"] else []
        rows += [u32(sizes[i])] if d["sizes"] else []
        rows += [u32(rng.randrange(1 << 26))] if d["sf"] else []
        rows += [u32(rng.choice((0, 5000, -5000 & 0xffffffff if ver else 70000, 0x80000001)))] if d["co"] else []
    extra = []
    if rng.random() < 0.5:
        w = rng.choice((0, 1))
        extra.append(full(b"tfdt", dts.to_bytes(8, "big") if w else u32(dts & 0xffffffff), v=w))
    p64 = lambda: rng.choice((rng.randrange(10 ** 6), rng.randrange(10 ** 12), rng.randrange(1 << 62)))
    pair = lambda w: (p64().to_bytes(8, "big") + p64().to_bytes(8, "big")) if w else u32(rng.randrange(1 << 32), rng.randrange(1 << 32))
    late_ = []
    if rng.random() < 0.4:
        w = rng.choice((1, 1, 0))
        late_.append(box(b"uuid", bytes((109, 29, 155, 5, 66, 213, 68, 230, 128, 226, 20, 29, 175, 247, 87, 178)), u32(w << 24), pair(w)))
    if rng.random() < 0.4:
        w, c = rng.choice((1, 1, 0)), rng.randrange(0, 4)
        late_.append(box(b"uuid", bytes((212, 128, 126, 242, 202, 57, 70, 149, 142, 84, 38, 203, 158, 70, 167, 159)), u32(w << 24), bytes([c]), b"".join(pair(w) for _ in range(c))))
    if rng.random() < 0.35:
        sub = rng.random() < 0.6
        items = []
        for i in range(n):
            it = blob(rng, 8)
            if sub:
                c = rng.randrange(1, 4)
                it += c.to_bytes(2, "big") + b"".join(rng.randrange(1 << 16).to_bytes(2, "big") + u32(rng.choice((0, 16, 1 << 20))) for _ in range(c))
            items.append(it)
        late_.append(full(b"senc", u32(n), *items, flags=2 if sub else 0))
        o = lambda: [blob(rng, 8)] if rng.random() < 0.3 else []
        if rng.random() < 0.5:
            a, w = o(), rng.choice((0, 1))
            offs = [rng.choice((rng.randrange(1 << 31), rng.randrange(1 << 62) if w else 5)) for _ in range(rng.choice((0, 1, 1, 2)))]
            late_.append(full(b"saio", *a, u32(len(offs)), *[x.to_bytes(8 if w else 4, "big") for x in offs], v=w, flags=len(a)))
        if rng.random() < 0.5:
            a, k = o(), rng.random() < 0.5
            late_.append(full(b"saiz", *a, bytes([16 if k else 0]), u32(n), b"" if k else bytes(rng.randrange(256) for _ in range(n)), flags=len(a)))
    rng.shuffle(late_)
    if rng.random() < 0.3:
        late_.append(full(b"sdtp", bytes(n)))

    def moof(at):
        tr = full(b"trun", u32(n), u32(at) if d["off"] else b"", u32(0x2000000) if d["first"] else b"", *rows, v=ver, flags=fl)
        return box(b"moof", full(b"mfhd", u32(seq)), box(b"traf", full(b"tfhd", *hd, flags=hf), *extra, tr, *late_))
    m = moof(len(moof(0)) + 8)
    return m + box(b"mdat", blob(rng, sum(sizes)))


def reads(rng, i):
    o = []
    for n in range(5):
        c = 1 if rng.random() < 0.4 else rng.randrange(2, 4)
        t = rng.choice((0, rng.randrange(10 ** 12)))
        o.append("read %s %s" % ("strict" if c == 1 and rng.random() < 0.7 else "run", b"".join(fragment(rng, n * 4 + j + 1, t + j * 20000000) for j in range(c)).hex()))
    return script("r%d" % i, rng.choice(("mem", "file")), o)


def hls(rng, i):
    o = []
    for n in range(6):
        o.append("hls %d %s %s" % (rng.choice((0, 1, 7, 255, 256, 65535, 65536, 70000, rng.randrange(1 << 30))), blob(rng, 16).hex(), blob(rng, rng.choice((1, 15, 16, 17, 31, 32, 48, rng.randrange(1, 120)))).hex()))
    return script("h%d" % i, "mem", o)


def present(rng, i, one=False):
    """Files of the same streams, indexed one after another and cut."""
    kinds = rng.choice(("va", "va", "va", "av", "v", "a", "vaa", "aa", "vv"))
    beat = [rng.choice(((8000, 1024), (11025, 1024), (10000000, 1280000), (7350, 1024), (48000, 6144))) for _ in kinds]
    o = []
    for n in range(1 if one else rng.choice((1, 1, 2, 2, 3))):
        ts = []
        for c, (rate, tick) in zip(kinds, beat):
            k = video(rng, frames=rng.randrange(3, 26)) if c == "v" else audio(rng, n=rng.randrange(6, 30) if rng.random() < .6 else rng.randrange(3, 9))
            k.samples = [blob(rng, rng.randrange(3, 10)) for _ in k.samples]
            if c == "a":
                k.scale, k.durs = rate, [tick] * len(k.durs)
            if c == "v" and k.sync is None:          # paced like sound
                k.durs = [k.durs[0]] * len(k.durs)
                if kinds.count("v") > 1:
                    k.sync = list(range(len(k.durs)))
            k.offset = late(rng, 1000) if "v" in kinds else None
            ts.append(k)
        b = movie(rng, ts, 1000)
        while "v" in kinds and "a" in kinds and min(over(k) for k in ts if k.kind == b"soun") < min(due(k)[0] for k in ts if k.kind == b"vide") + 3000000:
            return present(rng, i, one)
        o.append("file f%d %s" % (n, b.hex()))
    o.append("length %d" % rng.choice((2000000, 3000000, 5000000, 10000000, 20000000, rng.randrange(2800000, 9000000))))
    o += ["index f%d 0 0 1000 500" % n for n in range(len(o) - 1)]
    o += ["finish", "points"] + ["segments %d 10000000 %d" % (s, 1000 if c == "v" else 500) for s, c in enumerate(kinds)] + ["done"]
    return script("p%d" % i, "sync", o)


def run(ctx, sc):
    x = exe(ctx)
    ctx.conform("FragmentTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))


def amount(ctx, quick, thorough):
    return thorough if ctx.thorough else quick


def G01(ctx):
    run(ctx, [chunk(ctx.rng, i) for i in range(amount(ctx, 300, 4000))] + [cross(ctx.rng, i) for i in range(amount(ctx, 100, 1500))] + [direct(ctx.rng, i, False) for i in range(amount(ctx, 200, 3000))])


def G03(ctx):
    run(ctx, [init(ctx.rng, i) for i in range(amount(ctx, 150, 2000))])


def G04(ctx):
    run(ctx, [direct(ctx.rng, i, True) for i in range(amount(ctx, 200, 2500))] + [hls(ctx.rng, i) for i in range(amount(ctx, 150, 2000))])


def G05(ctx):
    run(ctx, [reads(ctx.rng, i) for i in range(amount(ctx, 200, 3000))])


def presentation(ctx, sc):
    ctx.model("CutMC", "CutMCt.cfg" if ctx.thorough else "CutMC.cfg", what="pictures are cut at the first access point at which the length is full; every sample of sound is in one fragment, whatever is left between files")
    x = exe(ctx)
    ctx.conform("PresentTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))


def G02(ctx):
    presentation(ctx, [present(ctx.rng, i) for i in range(amount(ctx, 200, 3000))])


def D06(ctx):
    presentation(ctx, [present(ctx.rng, i, i % 2 == 0) for i in range(amount(ctx, 200, 3000))])


CHECKS = {"G02": G02, "D06": D06, "G01": G01, "G03": G03, "G04": G04, "G05": G05}
