"""Presentations and manifests: D01 (times), D02 (DASH), D03 (HLS), D04 (smooth streaming), D05 (texts of times)."""
import media
from vt import script

RATES = (96000, 128000, 300000, 500000, 900000, 1500000, 2500000, 6000000)
SEC = 10000000


def exe(ctx):
    return media.build(ctx, "manifest", ["manifest_driver.cpp"], core=("mp4dynamicinfo.cpp", "mp4dynamic.cpp", "mp4edit.cpp"))


def cpd(rng):
    sps = bytes([0x67, rng.choice((66, 77, 100)), rng.choice((0, 0xC0, 0xE0, 0x40, 0x10, 0x80, 0xF0)), rng.choice((13, 30, 31, 41))]) + bytes(rng.randrange(256) for _ in range(rng.choice((3, 8, 20))))
    pps = bytes([0x68]) + bytes(rng.randrange(256) for _ in range(rng.choice((2, 3, 5))))
    return (len(sps).to_bytes(2, "big") + sps + len(pps).to_bytes(2, "big") + pps).hex()


def name(rng, kind, i):
    k = rng.random()
    if k < 0.6:
        return kind + (str(i) if i else "")
    return rng.choice(("Main", "a", "zeta", "Audio.de", "b2", "kanal")) + str(i)


def durations(rng, n):
    kind = rng.choice(("even", "even", "near", "mixed", "runs"))
    base = rng.choice((2 * SEC, 2 * SEC, 4 * SEC, 20020000, 60 * SEC, 333667 * 6, SEC // 2, 10 * SEC))
    out = []
    for _ in range(n):
        if kind == "even":
            d = base
        elif kind == "near":
            d = base + rng.randrange(-3, 4) * 400000
        elif kind == "runs":
            d = out[-1] if out and rng.random() < 0.7 else base + rng.randrange(4) * rng.choice((400000, 1, 4999999, 5000000))
        else:
            d = rng.choice((1, 9, 1000000, base, base // 3, 7 * SEC + 1, 999999, 10000001, 25 * SEC + 4000000))
        out.append(max(1, d))
    if n and rng.random() < 0.6:
        out[-1] = rng.choice((1, 400000, base // 2 + 1, 3 * base + 12345))
    return out


def size(rng):
    return rng.choice(((320, 180), (640, 360), (640, 368), (1280, 720), (1920, 1080), (1080, 1920)))


class Pres:
    """A presentation built by calls; what the checks may ask follows from it."""

    def __init__(self, rng, part):
        self.rng, self.ops, self.s = rng, [], []
        nv, na = rng.choice(((1, 1), (1, 1), (1, 0), (2, 1), (1, 2), (2, 2), (0, 1))) if part != "hls" else rng.choice(((1, 1), (1, 1), (1, 0), (1, 2)))
        kinds = ["video"] * nv + ["audio"] * na
        if rng.random() < 0.3:
            rng.shuffle(kinds)
        used = set()
        neg = rng.random() < 0.4
        for i, k in enumerate(kinds):
            n = name(rng, k, kinds[:i].count(k))
            if part == "hls":
                n = k + (str(i) if kinds[:i].count(k) else "")
            while n in used:
                n += "x"
            used.add(n)
            v = k == "video"
            if v:
                self.ops.append("video %d %d %d %s" % ((i,) + size(rng) + (n,)))
            else:
                self.ops.append("audio %d %d %d %d %s" % (i, rng.choice((44100, 48000, 22050)), rng.choice((1, 2, 6)), 16, n))
            s = {"rates": rng.sample(RATES, rng.choice((1, 1, 2, 3)) if v or rng.random() < 0.2 else 1), "pts": [], "files": []}
            codec = cpd(rng)
            for r in s["rates"]:
                w, h = size(rng) if v else (0, 0)
                if v and rng.random() < 0.4:
                    codec = cpd(rng)
                self.ops.append("rate %d %d %d %d %s" % (i, r, w, h, codec if v else "1210"))
            s["ops"] = []
            self.s.append(s)
            # points of one to three files
            t = rng.choice((0, 0, 0, 400000, 5 * SEC, 36000 * SEC)) if not neg else -rng.choice((800000, 400000, SEC))
            if part in ("dash", "smooth") and i and rng.random() < 0.8:
                t = self.s[0]["pts"][0] + rng.choice((0, 0, 213333))
            for f in range(rng.choice((1, 1, 2, 3))):
                ds = durations(rng, rng.choice((1, 2, 3, 5, 9)))
                if rng.random() < 0.04:
                    ds = [2 * SEC] * 120
                c = rng.choice((0, 0, 800000, 100 * SEC))
                start = max(t, 0) if f else rng.choice((0, 0, 0, max(t, 0)))
                # the first chunk may begin in the file before
                cross = f and t > 0 and ds[0] > 1 and rng.random() < 0.4
                if cross:
                    start = t + rng.randrange(1, ds[0])
                for r in s["rates"]:
                    s["ops"].append("path %d %d %d %s" % (i, r, start, rng.choice(("/v/%d_%d.mp4" % (f, r), "f%d.mp4" % f, "a&b%d.mp4" % f if rng.random() < 0.2 else "c%d.mp4" % f))))
                s["ops"].append("file %d %d" % (i, start))
                for k, d in enumerate(ds):
                    if cross and not k:
                        s["ops"].append("cross %d %d %d %d %d" % (i, t, 7 * SEC, start, c))
                        c -= start - t
                    else:
                        s["ops"].append("point %d %d %d" % (i, t, c))
                    s["pts"].append(t)
                    t += d
                    c += d
            s["ops"].append("point %d %d %d" % (i, t, c))
            s["pts"].append(t)
            self.ops += s["ops"]
        self.neg = neg


def present(rng, i, part):
    p = Pres(rng, part)
    o = p.ops
    if part == "index":
        moved = False
        for k in range(rng.randrange(5, 25)):
            if not moved and (rng.random() < 0.05 or p.neg and k == 2):
                o.append("rebase")
                m = min(s["pts"][0] for s in p.s)
                if m < 0:
                    for s in p.s:
                        s["pts"] = [t - m for t in s["pts"]]
                moved = True
            j = rng.randrange(len(p.s))
            s = p.s[j]
            t = rng.choice(s["pts"])
            q = rng.choice(("closest", "closest", "end", "end", "endc", "orig", "iscross", "pathof", "span", "israte"))
            if q == "span":
                o.append("span %d" % j)
            elif q == "israte":
                o.append("israte %d %d" % (j, rng.choice(s["rates"] + [777])))
            elif q == "pathof":
                o.append("pathof %d %d %d" % (j, max(0, t if rng.random() < 0.7 else t + rng.choice((-1, 1, 12345))), rng.choice(s["rates"] + [s["rates"][0]] * 3 + [777])))
            elif q == "closest":
                n = rng.choice(s["pts"])
                o.append("closest %d %d" % (j, rng.choice((t, t - 1, t + 1, (t + n) // 2, (t + n) // 2 + 1, t + 777777, t - 12 * SEC))))
            else:
                o.append("%s %d %d" % (q, j, t if rng.random() < 0.85 else t + rng.choice((-1, 1, SEC))))
        # a later point may be put in place of an earlier one
        if rng.random() < 0.2:
            t = rng.choice(p.s[0]["pts"])
            o.append("point 0 %d %d" % (t, 123456789))
            o += ["orig 0 %d" % t, "iscross 0 %d" % t, "end 0 %d" % p.s[0]["pts"][0]]
    else:
        settings(rng, part, o)
        if rng.random() < 0.3:
            o.append("rebase")
        o.append("render")
    return script("%s%d" % (part[0], i), part, o)


def settings(rng, part, o):
    if rng.random() < 0.25:
        o.append("noname")
    if part == "dash" and rng.random() < 0.3:
        for _ in range(rng.randrange(1, 4)):
            o.append("protect %d urn:uuid:%04x" % (rng.randrange(2), rng.randrange(65536)))
    if part == "hls":
        if rng.random() < 0.3:
            o.append("prefix p%d" % rng.randrange(10))
        if rng.random() < 0.3:
            o.append("key %s %s" % (bytes(rng.randrange(256) for _ in range(16)).hex(), rng.choice(("hls3.key", "my.key"))))


def direct(rng, i, part):
    """The renderer told by itself: chunks may leave gaps."""
    o = []
    settings(rng, part, o)
    o.append("rbegin %d" % rng.choice((0, 1, 10 * SEC, 65500000, 60 * SEC + 1, 3 * SEC + 900000, 36000 * SEC + 9999999, rng.randrange(10**12))))
    kinds = ["audio"] * rng.choice((0, 1, 1)) + ["video"] * (1 if part == "hls" else rng.choice((1, 1, 2, 0)))
    if part == "dash" or rng.random() < 0.2:
        rng.shuffle(kinds)
    if part == "hls":
        if rng.random() < 0.7:
            kinds.sort()
        if kinds[0] == "video" and "audio" in kinds:
            pass
    for n, k in enumerate(kinds):
        v = k == "video"
        pts = []
        t = rng.choice((0, 0, 1, 5 * SEC))
        for d in durations(rng, rng.choice((1, 2, 3, 6, 12))):
            if rng.random() < 0.15:
                t += rng.choice((1, d, SEC))
            pts.append((t, d))
            t += d
        rates = rng.sample(RATES, rng.choice((1, 2, 3)) if v else 1)
        if part == "hls" and v and not any(x == "audio" for x in kinds[:n]) and "audio" in kinds:
            pass
        o.append("rstream %d %d %d %s%d" % (v, len(pts), len(rates), k, n))
        codec = cpd(rng)
        for r in rates:
            w, h = size(rng)
            if rng.random() < 0.4:
                codec = cpd(rng)
            o.append("rvideo %d %d %d %s" % (r, w, h, codec) if v else "raudio %d %d %d %d" % (r, rng.choice((44100, 48000)), rng.choice((1, 2)), 16))
        o += ["rpoint %d %d" % x for x in pts]
        o.append("rendstream")
    o.append("rend")
    return script("%sd%d" % (part[0], i), part, o)


def texts(rng, i):
    o = []
    for _ in range(20):
        v = rng.choice((rng.randrange(100), rng.randrange(10**5), rng.randrange(10**8), rng.randrange(10**12), 3600 * SEC, 3600 * SEC - 1, 60 * SEC - 1, 59 * 60 * SEC, 10 * SEC, 100 * 3600 * SEC, 9999, 10000, 99 * 10000, 100 * 10000, 999 * 10000))
        f = (rng.choice((0, 1, 9, 10, 11, 23, 99, 100, 300)), rng.choice((0, 9, 10, 59, rng.randrange(60))), rng.choice((0, 9, 10, 59, rng.randrange(60))), rng.choice((0, 1, 9, 10, 11, 99, 100, 101, 999, rng.randrange(1000))))
        if rng.random() < 0.5:
            v = ((f[0] * 60 + f[1]) * 60 + f[2]) * SEC + f[3] * 10000 + rng.choice((0, 1, 9999))
        if rng.random() < 0.3:
            v = -v
        o.append("text %d" % v)
        o.append("make %d %d %d %d" % f)
    return script("t%d" % i, "time", o)


def run(ctx, sc):
    x = exe(ctx)
    ctx.conform("ManifestTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))


def amount(ctx, quick, thorough):
    return thorough if ctx.thorough else quick


def D01(ctx):
    run(ctx, [present(ctx.rng, i, "index") for i in range(amount(ctx, 1200, 15000))])


def D02(ctx):
    ctx.model("TimelineMC", "TimelineMCt.cfg" if ctx.thorough else "TimelineMC.cfg", what="every sequence of chunks: the timeline written so far and the run being counted expand to the chunks given")
    run(ctx, [present(ctx.rng, i, "dash") for i in range(amount(ctx, 500, 6000))] + [direct(ctx.rng, i, "dash") for i in range(amount(ctx, 400, 5000))])


def D03(ctx):
    run(ctx, [present(ctx.rng, i, "hls") for i in range(amount(ctx, 300, 4000))] + [direct(ctx.rng, i, "hls") for i in range(amount(ctx, 250, 3000))])


def D04(ctx):
    run(ctx, [present(ctx.rng, i, "smooth") for i in range(amount(ctx, 400, 5000))])


def D05(ctx):
    run(ctx, [texts(ctx.rng, i) for i in range(amount(ctx, 150, 2000))])


CHECKS = {"D01": D01, "D02": D02, "D03": D03, "D04": D04, "D05": D05}
