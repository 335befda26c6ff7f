"""MP4 files: K01-K03 (reading), W01-W03 (writing)."""
import os, struct
from vt import script, REPO
import flavor

CORE = ["src/mg/core/bitstream.cpp", "src/mg/core/thread.cpp", "src/mg/core/uvbase.cpp",
        "src/mg/core/file.cpp", "src/mg/core/nx/util.cpp", "src/mg/core/nx/ctime.cpp"]
SRC = REPO + "/src/mg/media"


def build(ctx, name, sources, core=(), extra=()):
    """The repository's box descriptions, translated as its build does, then the driver."""
    inc = ctx.path("inc")
    if not os.path.isdir(inc):
        out = os.path.join(inc, "mg/media/mp4")
        os.makedirs(out)
        flavor.generate(SRC + "/mp4", out)
    return ctx.build(name, sources, flags=["-DMG_ERRROR_LOG", "-I" + inc, "-I" + inc + "/mg/media", "-I" + SRC, "-I" + REPO + "/deps/libuv/include"] + list(extra),
                     core=CORE + ["src/mg/media/" + c for c in core])


# ------------------------------------------------------------------ writing files by the book
def u32(*v):
    return b"".join(struct.pack(">I", x & 0xffffffff) for x in v)


def box(t, *body, wide=False):
    b = b"".join(body)
    if wide:
        return u32(1) + t + struct.pack(">Q", len(b) + 16) + b
    return u32(len(b) + 8) + t + b


def full(t, *body, v=0, flags=0):
    return box(t, u32(v << 24 | flags), *body)


STSD_V = full(b"stsd", u32(1), box(b"avc1", bytes(6), struct.pack(">H", 1), bytes(16), struct.pack(">HH", 640, 368), u32(0x480000, 0x480000, 0), struct.pack(">H", 1), bytes(32), struct.pack(">Hh", 24, -1),
              box(b"avcC", bytes.fromhex("0164001effe1001a6764001eacd940a02ff97011000003000100000300320f162d9601000668ebe3cb22c0"))))
STSD_A = full(b"stsd", u32(1), box(b"mp4a", bytes(6), struct.pack(">H", 1), bytes(8), struct.pack(">HHHH", 2, 16, 0, 0), u32(44100 << 16),
              box(b"esds", bytes.fromhex("0000000003808080220000000480808014401500035200037aa00001f40005808080021210068080800102"))))
MATRIX = u32(0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000)


def rle(seq):
    out = []
    for x in seq:
        if out and out[-1][1] == x:
            out[-1][0] += 1
        else:
            out.append([1, x])
    return out


class Trk:
    """A track to be written: samples (bytes), durations, composition offsets (None), sync numbers from 0 (None), chunk lengths."""
    def __init__(s, kind, scale, samples, durs, comps=None, sync=None, chunks=None, offset=None, fixed=False, split=False, v=0, lang="und", extra=b"", hdlr=b"handler\0", stsd=None):
        s.__dict__.update(locals())
        s.at = []


def mp4(tracks, order=None, mdat_first=False, movie_scale=1000, rng=None, junk=0, v=0, whole=None):
    """order: the chunks (track, index) in the order they are stored."""
    order = order if order is not None else [(t, c) for t, k in enumerate(tracks) for c in range(len(k.chunks))]
    body, pos = b"", {}
    for t, c in order:
        k = tracks[t]
        i = sum(k.chunks[:c])
        pos[t, c] = len(body)
        body += b"".join(k.samples[i:i + k.chunks[c]])
        if rng and junk > 1 and rng.random() < 0.4:
            body += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 6)))    # a gap
    other = lambda: box(rng.choice((b"free", b"skip", b"udta", b"uuhu", b"wide", b"uuid")), bytes(rng.randrange(256) for _ in range(rng.randrange(16, 40))), wide=junk > 2 and rng.random() < 0.3) if rng and junk and rng.random() < 0.4 else b""
    state = rng.getstate() if rng else None

    def moov(base):
        if rng:
            rng.setstate(state)
        dates = lambda vv: bytes(16) if vv else bytes(8)
        length = lambda vv, d: struct.pack(">Q", d) if vv else u32(d)
        m = full(b"mvhd", dates(v), u32(movie_scale), length(v, 77 * movie_scale // 10 if whole is None else whole), u32(0x10000), b"\1\0" + bytes(10), MATRIX, bytes(24), u32(len(tracks) + 1), v=v)
        m += other()
        for t, k in enumerate(tracks):
            n = len(k.samples)
            total = sum(k.durs)
            st = k.stsd or (STSD_V if k.kind == b"vide" else STSD_A)
            rl = [[1, d] for d in k.durs] if k.split else rle(k.durs)
            st += full(b"stts", u32(len(rl)), *[u32(a, b) for a, b in rl])
            if k.comps is not None:
                rl = [[1, d] for d in k.comps] if k.split else rle(k.comps)
                st += full(b"ctts", u32(len(rl)), *[u32(a, b) for a, b in rl])
            sc = []
            for c, x in enumerate(k.chunks):
                if not sc or sc[-1][1] != x or k.split:
                    sc.append((c + 1, x))
            st += full(b"stsc", u32(len(sc)), *[u32(a, b, 1) for a, b in sc])
            sizes = [len(x) for x in k.samples]
            if k.fixed and len(set(sizes)) == 1 and sizes[0]:
                st += full(b"stsz", u32(sizes[0], n))
            else:
                st += full(b"stsz", u32(0, n, *sizes))
            st += full(b"stco", u32(len(k.chunks)), *[u32(base + pos[t, c]) for c in range(len(k.chunks))])
            if k.sync is not None:
                st += full(b"stss", u32(len(k.sync)), *[u32(x + 1) for x in k.sync])
            st += other()
            mi = full(b"vmhd", bytes(8), flags=1) if k.kind == b"vide" else full(b"smhd", bytes(4))
            mi += box(b"dinf", full(b"dref", u32(1), full(b"url ", flags=1))) + box(b"stbl", st)
            w = 0
            for ch in k.lang:
                w = w << 5 | (ord(ch) - 96)
            md = full(b"mdhd", dates(k.v), u32(k.scale), length(k.v, total), struct.pack(">HH", w, 0), v=k.v)
            md += full(b"hdlr", u32(0), k.kind, bytes(12), k.hdlr) + box(b"minf", mi)
            tk = full(b"tkhd", dates(v), u32(t + 1, 0), length(v, total * movie_scale // k.scale), bytes(8), bytes(8), MATRIX, u32(640 << 16, 368 << 16), v=v, flags=1)
            if k.offset is not None:
                o, ev = k.offset, k.v
                ent = (struct.pack(">Qq", o, -1) + u32(0x10000) + struct.pack(">Qq", 1000, 0) + u32(0x10000)) if ev else u32(o, -1, 0x10000, 1000, 0, 0x10000)
                tk += box(b"edts", full(b"elst", u32(2), ent, v=ev))
            m += box(b"trak", tk, other(), box(b"mdia", md), other())
        return box(b"moov", m, other())
    head = box(b"ftyp", b"isom", u32(512), b"isomavc1")
    wide = bool(rng and junk > 2 and rng.random() < 0.3)
    if mdat_first:
        md = box(b"mdat", body, wide=wide)
        fr = box(b"free", bytes(7)) if rng and rng.random() < 0.5 else b""
        return head + fr + md + moov(len(head) + len(fr) + (16 if wide else 8))
    n = len(moov(0))
    return head + moov(len(head) + n + (16 if wide else 8)) + box(b"mdat", body, wide=wide)


SCALES = (1, 3, 600, 1000, 24000, 25, 30000, 44100, 48000, 90000, 10000000, 7)


def rnd_track(rng, kind=None, n=None, big=False, plain=False, zero=True, empty=True):
    kind = kind or rng.choice((b"vide", b"soun"))
    n = n if n is not None else rng.randrange(1, 14)
    scale = rng.choice(SCALES)
    if big and rng.random() < 0.5:
        scale = rng.choice((199999, 10000000, 1))
    tick = max(1, scale // rng.choice((25, 30, 24, 50, 1)))
    if rng.random() < 0.3:
        tick = rng.randrange(1, 4)
    if scale == 30000 or scale == 24000:
        tick = 1001
    durs = [tick] * n
    k = rng.random()
    if k < 0.4:
        durs = [tick + rng.randrange(0, 3) for _ in range(n)]
    elif k < 0.6:
        durs = [tick * rng.randrange(1, 4) for _ in range(n)]
    if big:
        durs = [rng.choice((1 << 31, 0xfffffff0, 1 << 24, d)) if rng.random() < 0.3 else d for d in durs]
    if zero and rng.random() < 0.1:
        durs = [0 if rng.random() < 0.2 else d for d in durs]
    comps = None
    if rng.random() < 0.5 and not plain:
        if rng.random() < 0.3:
            comps = [tick] * n
        else:
            comps = [tick * rng.choice((0, 1, 1, 2, 3, 4)) for _ in range(n)]
        if rng.random() < 0.5:    # a true reordering: each sample shown at its own moment
            perm = list(range(n))
            for i in range(0, n - 3, 3):
                if rng.random() < 0.7:
                    perm[i + 1:i + 4] = [perm[i + 3]] + perm[i + 1:i + 3]
            dec = [sum(durs[:i]) for i in range(n)]
            show = {s: j for j, s in enumerate(perm)}
            lag = max([0] + [dec[i] - dec[perm[i]] for i in range(n)])
            comps = [dec[perm[i]] + lag - dec[i] for i in range(n)]
    sync = None
    if (kind == b"vide" and rng.random() < 0.8 or rng.random() < 0.1) and not plain:
        sync = sorted(set([0 if rng.random() < 0.8 else rng.randrange(n)] + [rng.randrange(n) for _ in range(rng.randrange(4))]))
    chunks, left = [], n
    even = rng.randrange(1, 4) if rng.random() < 0.4 else 0
    while left:
        c = min(left, even or rng.randrange(1, 5))
        chunks.append(c)
        left -= c
    size = rng.randrange(0, 9) if rng.random() < 0.3 else None
    samples = [bytes(rng.randrange(256) for _ in range(size if size else rng.randrange(0 if empty and rng.random() < 0.1 else 1, 9))) for _ in range(n)]
    off = None
    if rng.random() < 0.3:
        off = rng.choice((1, 40, 500, 3, 1000))
    return Trk(kind, scale, samples, durs, comps, sync, chunks, off, fixed=rng.random() < 0.6, split=rng.random() < 0.2, v=rng.choice((0, 0, 1)),
               lang="".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(3)), hdlr=rng.choice((b"\0", b"", b"x\0", b"Some Handler Name\0")))


def rnd_order(rng, tracks):
    left = [(t, len(k.chunks), 0) for t, k in enumerate(tracks)]
    out, nxt = [], [0] * len(tracks)
    while True:
        c = [t for t, k in enumerate(tracks) if nxt[t] < len(k.chunks)]
        if not c:
            return out
        t = rng.choice(c)
        for _ in range(rng.choice((1, 1, 2, 5))):
            if nxt[t] < len(tracks[t].chunks):
                out.append((t, nxt[t]))
                nxt[t] += 1


def rnd_file(rng, nt=None, **kw):
    ts = [rnd_track(rng, **kw) for _ in range(nt or rng.choice((1, 1, 2, 2, 3)))]
    ms = rng.choice((1000, 600, 90000, 1))
    return ts, ms, mp4(ts, rnd_order(rng, ts), rng.random() < 0.4, ms, rng, rng.choice((0, 1, 2, 3)), v=rng.choice((0, 0, 1)))


def head(rng):
    return "%s %d" % (rng.choice(("mem", "mem", "sync", "async")), rng.choice((16, 64, 256, 1024, 4096, 51200)))


def hns(t, scale):
    return t * 10000000 // scale


def times(rng, k, extra=()):
    dec = [sum(k.durs[:i]) for i in range(len(k.durs) + 1)]
    t = set(hns(x, k.scale) for x in dec)
    if k.comps:
        t |= set(hns(d + c, k.scale) for d, c in zip(dec, k.comps))
    t |= set(x + e for x in list(t) for e in (-1, 1)) | set(extra)
    t |= set(rng.randrange(hns(dec[-1], k.scale) + 2) for _ in range(4))
    return sorted(x for x in t if x >= 0)


def K01(ctx):
    rng, sc = ctx.rng, []
    for i in range(2500 if ctx.thorough else 330):
        big = i % 5 == 4
        ts, ms, f = rnd_file(rng, big=big)
        ops = ["file " + f.hex(), "open"]
        for t, k in enumerate(ts):
            ops.append("info %d" % t)
            for j in sorted(range(len(k.samples)), key=lambda _: rng.random()):
                ops.append("sample %d %d" % (t, j))
        sc.append(script("k%d" % i, head(rng), ops))
    go(ctx, sc)


def K02(ctx):
    rng, sc = ctx.rng, []
    for i in range(2500 if ctx.thorough else 330):
        ts, ms, f = rnd_file(rng, big=i % 9 == 8)
        ops = ["file " + f.hex(), "open"]
        for t, k in enumerate(ts):
            last = hns(sum(k.durs), k.scale)
            for x in times(rng, k, extra=(last + 5, last * 2 + 7)):
                if x < 1 << 60:
                    if k.sync is not None or x < last:
                        ops.append("iframe %d %d" % (t, x))
                    ops.append("comp %d %d" % (t, x))
        sc.append(script("k%d" % i, head(rng), ops))
    go(ctx, sc)


def K03(ctx):
    rng, sc = ctx.rng, []
    for i in range(2500 if ctx.thorough else 330):
        ts, ms, f = rnd_file(rng, nt=rng.choice((1, 2, 2, 3, 3, 4)), empty=False)    # the place of a sample without bytes says nothing
        ops = ["file " + f.hex(), "open"]
        total = sum(len(k.samples) for k in ts)
        if rng.random() < 0.5:
            ops += ["next"] * (total + 2)
        for _ in range(rng.choice((1, 2, 3))):
            k = rng.randrange(len(ts))
            x = rng.choice(times(rng, ts[k]))
            ops.append("move %s %d" % ("-" if rng.random() < 0.6 else k, x))
            ops += ["next"] * (rng.randrange(total + 3) if rng.random() < 0.5 else total + 2)
        sc.append(script("k%d" % i, head(rng), ops))
    go(ctx, sc)


def go(ctx, sc):
    if ctx.prop != "K01":
        ctx.model("Mp4ReadMC", "Mp4ReadMCt.cfg" if ctx.thorough and ctx.prop == "K03" else "Mp4ReadMC.cfg",
                  what="all small movies of two tracks: every sample once by place, seeks enter at an access point, looking up in ticks is looking up in reported time")
    x = build(ctx, "mp4", ["mp4_driver.cpp"])
    ctx.conform("Mp4ReadTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))



# ------------------------------------------------------------------ writing files with the library
class Bits:
    def __init__(s):
        s.b = []

    def u(s, n, v):
        s.b += [v >> i & 1 for i in range(n - 1, -1, -1)]
        return s

    def ue(s, v):
        n = (v + 1).bit_length()
        return s.u(n - 1, 0).u(n, v + 1)

    def se(s, v):
        return s.ue(2 * v - 1 if v > 0 else -2 * v)

    def end(s):
        s.u(1, 1)
        s.b += [0] * (-len(s.b) % 8)
        return bytes(int("".join(map(str, s.b[i:i + 8])), 2) for i in range(0, len(s.b), 8))


def nal(head, rbsp):
    out, zeros = bytearray(), 0
    for x in rbsp:
        if zeros >= 2 and x <= 3:
            out.append(3)
            zeros = 0
        out.append(x)
        zeros = zeros + 1 if x == 0 else 0
    return bytes([head]) + bytes(out)


def rnd_sps(rng):
    b = Bits()
    p = rng.choice((66, 77, 88, 100, 110, 122, 244))
    b.u(8, p).u(8, rng.choice((0, 0, 0x40, 0xc0, 0xe0, rng.randrange(64) << 2))).u(8, rng.choice((10, 30, 31, 40, 51)))
    b.ue(rng.choice((0, 0, 0, 1, 31)))
    cf = 1
    if p >= 100:
        cf = rng.choice((1, 1, 0, 2, 3))
        b.ue(cf)
        if cf == 3:
            b.u(1, rng.randrange(2))
        b.ue(rng.choice((0, 2))).ue(rng.choice((0, 2))).u(1, rng.randrange(2)).u(1, 0)
    b.ue(rng.choice((0, 4, 12)))
    t = rng.choice((0, 0, 1, 2))
    b.ue(t)
    if t == 0:
        b.ue(rng.choice((0, 2, 12)))
    elif t == 1:
        b.u(1, rng.randrange(2)).se(rng.choice((0, -1, 5, -70))).se(rng.choice((0, 3, -2)))
        n = rng.randrange(4)
        b.ue(n)
        for _ in range(n):
            b.se(rng.choice((0, 1, -1, 40, -1000)))
    b.ue(rng.choice((1, 2, 4, 16))).u(1, rng.randrange(2))
    w, h = rng.choice(((40, 23), (120, 68), (11, 9), (22, 18), (80, 45), (1, 1), (45, 36), (240, 135)))
    b.ue(w - 1).ue(h - 1)
    prog = rng.choice((1, 1, 1, 0))
    b.u(1, prog)
    if not prog:
        b.u(1, rng.randrange(2))
    b.u(1, rng.randrange(2))
    if rng.random() < 0.4:
        b.u(1, 1)
        for _ in range(4):
            b.ue(rng.choice((0, 0, 1, 2)))
    else:
        b.u(1, 0)
    if rng.random() < 0.5:
        b.u(1, 1)
        if rng.random() < 0.5:
            b.u(1, 1)
            if rng.random() < 0.5:
                b.u(8, 255).u(16, rng.choice((1, 40, 64))).u(16, rng.choice((1, 33, 45)))
            else:
                b.u(8, rng.choice((0, 1, 3)))
        else:
            b.u(1, 0)
        b.u(1, 0)
        if rng.random() < 0.5:
            b.u(1, 1).u(3, 5).u(1, 1).u(1, 1).u(24, 0x010101)
        else:
            b.u(1, 0)
        b.u(1, 0)
        if rng.random() < 0.7:
            b.u(1, 1).u(32, rng.choice((1, 1001, 40000))).u(32, rng.choice((50, 60000, 2000000))).u(1, 1)
        else:
            b.u(1, 0)
        b.u(1, 0).u(1, 0).u(1, rng.randrange(2))
        if rng.random() < 0.5:
            b.u(1, 1).u(1, 1).ue(0).ue(0).ue(rng.choice((9, 10, 11))).ue(rng.choice((9, 10, 16))).ue(rng.randrange(4)).ue(rng.randrange(5))
        else:
            b.u(1, 0)
    else:
        b.u(1, 0)
    return nal(rng.choice((0x67, 0x27, 0x47)), b.end())


def rnd_pps(rng):
    return rng.choice((bytes.fromhex("68ebe3cb22c0"), bytes.fromhex("68ce3c80"), bytes.fromhex("28ee3cb0")))


RATES = (48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000)


class Feed:
    """A stream to be added: its line, its samples as (comp, dec, sync, data)."""
    def __init__(s, rng, auto=None, reorder=None, many=False, base=None, long=False):
        s.rng = rng
        s.video = rng.random() < 0.55
        s.auto = s.video and (rng.random() < 0.2 if auto is None else auto)
        reorder = s.video and (rng.random() < 0.4 if reorder is None else reorder)
        n = rng.choice((1, 2, 3, 5, 8, 12)) if not many else rng.randrange(8, 30)
        fit = rng.random() < 0.6
        if s.video:
            s.scale = rng.choice((1000, 10000000, 1000, 90000) if fit else (1000, 90000, 24000, 600, 30000, 44100, 25, 10000000))
            step = rng.choice((400000, 200000, 10000, 120000)) if fit else rng.choice((333667, 417083, 400000, 333333, 166833, 7 * 400001))
            wh = rng.choice(("0 0", "0 0", "640 368", "1920 1080"))
            s.line = "video %d %s %s %s" % (s.scale, wh, rnd_sps(rng).hex(), rnd_pps(rng).hex())
        else:
            rate = rng.choice(RATES)
            s.scale = rng.choice((1000, 10000000) if fit else (rate, rate, rate, 1000))
            step = rng.choice((200000, 250000, 10000)) if fit else 1024 * 10000000 // rate
            s.line = "audio %d %d %d %d %d" % (s.scale, rng.choice((2, 2, 1)), rate, rng.choice((1, 2, 2, 6)), rng.choice((64000, 128000)))
        if long:
            step *= rng.choice((10, 40))
        grid = 10000 if fit else 1
        start = base if base is not None else rng.choice((0, 0, step, 3 * step, 10000000, 900000000, 36000000000))
        if base is not None and rng.random() < 0.4:
            start += rng.randrange(0, 40) * (grid if rng.random() < 0.5 else step)
        if s.auto and not start:
            start = step * 3
        k, dec = 0, []
        vary = rng.random() < 0.3
        t = start
        for _ in range(n):
            dec.append(t)
            t += step if not vary else max(grid, step * rng.choice((1, 1, 2, 3)) + (rng.randrange(-3, 4) * grid if step > 4 * grid else 0))
        dec.append(t)
        if reorder and n > 2:
            perm, i = list(range(n)), 1
            while i + 2 < n:
                if rng.random() < 0.6:
                    perm[i:i + 3] = [perm[i + 2]] + perm[i:i + 2]
                    perm[i:i + 3] = rng.choice(([i + 2, i, i + 1], [i + 1, i, i + 2], [i, i + 1, i + 2]))
                    i += 3
                else:
                    i += 1
            lag = max([0] + [dec[i] - dec[perm[i]] for i in range(n)])
            comp = [dec[perm[i]] + lag for i in range(n)]
        else:
            comp = [d + (step if reorder else 0) for d in dec[:n]]
            if not s.video or rng.random() < 0.5:
                comp = dec[:n]
        one = rng.randrange(1, 12) if rng.random() < 0.4 else 0
        gop = rng.choice((1, 4, 100))
        s.a = [(comp[i], dec[i] if not s.auto else 0, not s.video or i % gop == 0 or rng.random() < 0.05,
                bytes(rng.randrange(256) for _ in range(one or rng.randrange(1, 14)))) for i in range(n)]
        s.due = [comp[i] if s.auto else dec[i] for i in range(n)]
        s.comp = comp


def adds(rng, feeds, order):
    """The samples in some order of adding: (stream, index)."""
    left = [0] * len(feeds)
    out = []
    if order == "streams":
        return [(s, k) for s in rng.sample(range(len(feeds)), len(feeds)) for k in range(len(feeds[s].a))]
    while True:
        c = [s for s, f in enumerate(feeds) if left[s] < len(f.a)]
        if not c:
            return out
        s = min(c, key=lambda s: feeds[s].due[left[s]]) if order == "time" else rng.choice(c)
        out.append((s, left[s]))
        left[s] += 1


def mux_script(rng, i, part):
    inter = part == "order"
    nf = rng.choice((1, 1, 2, 2, 3))
    if inter:
        nf = rng.choice((2, 2, 3))
    if part == "entries":
        nf = rng.randrange(1, 6)
    shift = rng.random() < 0.25    # the distance between streams is put into 32 bit fields: not an hour
    base = rng.choice((0, 20000000, 400000000)) if shift else rng.choice((None, 0, 20000000)) if not inter else rng.choice((0, 20000000, 10000000000))
    feeds = [Feed(rng, auto=False if inter else None, reorder=False if inter else None, many=inter, base=base, long=inter and rng.random() < 0.5) for _ in range(nf)]
    ops = [f.line for f in feeds]
    for s, f in enumerate(feeds):
        if rng.random() < 0.3:
            ops.append("lang %d %s" % (s, "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(3))))
        if f.auto:
            ops.append("auto %d" % s)
    order = rng.choice(("time", "time", "streams", "any")) if not inter else rng.choice(("time", "time", "streams", "any"))
    if rng.random() < 0.3:
        d = rng.choice((0, 100000, 1000000, 3000000, 6000000) + ((20000000, 100000000) if order == "time" else ()))
        ops.append("distance %d %d" % (d, 1 if inter or any(f.auto for f in feeds) or rng.random() < 0.5 else 0))
    if shift:
        ops.append("shift")
    ops.append("start" if rng.random() < 0.4 else "start %d" % rng.choice((16, 64, 300, 2000, 100000)))
    for s, k in adds(rng, feeds, order):
        c, d, y, b = feeds[s].a[k]
        ops.append("add %d %d %d %d %d %s" % (s, y, c, d, 400000, b.hex()))
    ops.append("end")
    return script("w%d" % i, "%s %s" % (rng.choice(("sync", "sync", "async")), part), ops)


def mux(ctx, part, quick, thorough):
    x = build(ctx, "mux", ["mux_driver.cpp"])
    sc = [mux_script(ctx.rng, i, part) for i in range(thorough if ctx.thorough else quick)]
    ctx.conform("Mp4WriteTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))


def W01(ctx):
    mux(ctx, "contents", 400, 4000)


def W02(ctx):
    ctx.model("Mp4WriteMC", "Mp4WriteMC.cfg", what="two streams, every choice of times and every order of adding: stored once, in order, no further apart than the distance, nothing left")
    if ctx.thorough:
        ctx.model("Mp4WriteMC", "Mp4WriteMCt.cfg", what="the same for three streams")
        ctx.model("Mp4WriteMC", "Mp4WriteMCt2.cfg", what="the same for two longer streams")
    mux(ctx, "order", 250, 2500)


def W03(ctx):
    mux(ctx, "entries", 300, 4000)


CHECKS = {"K01": K01, "K02": K02, "K03": K03, "W01": W01, "W02": W02, "W03": W03}
