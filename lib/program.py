"""The mg program as a user runs it: Y01 (MPEG-DASH), Y02 (HTTP Live Streaming)."""
import os, shutil, struct, subprocess
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
import fragments as F
import media
from edits import interval
from vt import script, REPO

BIAS = 1 << 44
CORE = F.CORE + ["tsinfo.cpp", "wincrc.cpp", "../../mgcli/mp4info.cpp", "../../b64/src/cencode.cpp", "../../b64/src/cdecode.cpp"]


def exe(ctx):
    return media.build(ctx, "mg", ["empty.cpp"], core=CORE, extra=F.AES + ["-I" + REPO + "/src/mgcli", "-I" + REPO + "/src/b64/include", "-DBASE64=1"])


def long(v):
    v &= (1 << 64) - 1
    return [v >> 48, v >> 32 & 0xffff, v >> 16 & 0xffff, v & 0xffff]


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


# ------------------------------------------------------------------ running it
def run(ctx, x, sc, make):
    """Every script is a run of the program in a directory of its own."""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:detect_odr_violation=0", LANG="C.UTF-8")

    def one(k):
        lines = sc[k].strip().split("\n")
        tid = lines[0].split(" ")[1]
        d = ctx.path("run_%s_%d" % (tid, os.getpid()))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/out")
        args, files = [x, "-o:" + d + "/out"], {}
        for o in lines[1:-1]:
            o = o.split(" ")
            if o[0] == "file":
                files[o[1]] = bytes.fromhex(o[2])
                with open(d + "/" + o[1] + ".mp4", "wb") as f:
                    f.write(files[o[1]])
            elif o[0] == "input":
                args += ["-i:%s/%s.mp4" % (d, o[1]), "-s:" + o[2], "-e:" + o[3]]
            elif o[0] == "path":
                args.append("-j:%s/%s.mp4" % (d, o[1]))
            elif o[0] == "set":
                args.append("-%s:%s" % (o[1], o[2]))
        try:
            p = subprocess.run(args, cwd=d, env=env, capture_output=True, timeout=60)
            rc, err = p.returncode, p.stderr.decode(errors="replace")[-3000:]
        except subprocess.TimeoutExpired:
            rc, err = -99, "did not end"
        t = make(tid, [o.split(" ") for o in lines[1:-1]], files, d + "/out", rc, err)
        shutil.rmtree(d)
        return t
    with ThreadPoolExecutor(8) as p:
        return [t for ts in p.map(one, range(len(sc))) for t in ts]


def levels(ops):
    """Each level of quality: its bit rate, and the file of every input it comes from."""
    ins = [o for o in ops if o[0] == "input"]
    paths = [o[1] for o in ops if o[0] == "path"]
    n = len(paths) // len(ins)
    rates = [int(o[2]) for o in ops if o[0] == "set" and o[1] == "bitrate"]
    return [(rates[q], [([o[1]] + paths[i * n:i * n + n])[q] for i, o in enumerate(ins)]) for q in range(n + 1)]


def begin(ops, files, names, rc):
    ev = [{"op": "file", "f": n, "d": list(files[n])} for n in dict.fromkeys(names)]
    ev += [{"op": "length", "v": long(int(o[2]))} for o in ops if o[0] == "set" and o[1] == "segment"]
    ins = [o for o in ops if o[0] == "input"]
    ev += [{"op": "index", "f": n, "from": long(int(o[2])), "to": long(int(o[3]))} for n, o in zip(names, ins)]
    return ev + [{"op": "ran", "rc": rc}]


# ------------------------------------------------------------------ MPEG-DASH
def dash(tid, ops, files, out, rc, err):
    """A trace for each level: what the manifest names is there, and is the stream."""
    res = []
    ls = levels(ops)
    opt = {o[1]: o[2] for o in ops if o[0] == "set"}
    for q, (rate, names) in enumerate(ls):
        ev = begin(ops, files, names, rc)
        res.append({"id": "%s#%d" % (tid, q), "ev": ev})
        try:
            sets = manifest(out + "/index.mpd")
        except (ValueError, KeyError, TypeError, ET.ParseError, OSError) as e:
            ev.append({"op": "unreadable", "why": repr(e)})
            continue
        kinds = [o[1] for o in ops if o[0] == "kinds"][0]
        n = {"v": 0, "a": 0}
        pts, init, segs = [], [], []
        for s, c in enumerate(kinds):
            mine = [a for a in sets if a["video"] == (c == "v")]
            a = mine[n[c]] if n[c] < len(mine) else None
            n[c] += 1
            bw = rate * 1000 if c == "v" else int(opt.get("audio_bitrate", 96000))
            if not a or sorted(a["bw"]) != sorted(set([r * 1000 for r, _ in ls] if c == "v" else [bw])):
                ev.append({"op": "missing", "s": s})
                break
            end = a["at"][-1][0] + a["at"][-1][1] if a["at"] else 0
            p = [[long(t * 10000000 // a["scale"] + BIAS), long(0)] for t in [t for t, _ in a["at"]] + [end]]
            pts.append({"id": s, "video": c == "v", "p": p, "dur": long((end - a["at"][0][0] if a["at"] else 0) * 10000000 // a["scale"] + BIAS)})
            scale = long(int(opt.get("videotimescale" if c == "v" else "audiotimescale", 10000000)))
            init.append({"op": "init", "s": s, "out": list(read(out + "/" + name(a["init"], bw)) or b""), "bitrate": bw, "scale": scale})
            segs.append({"op": "segments", "s": s, "scale": scale, "a": [list(read(out + "/" + name(a["media"], bw, t)) or b"") for t, _ in a["at"]]})
        else:
            ev += [{"op": "points", "a": pts}] + init + segs + [{"op": "done"}]
    return res


# ------------------------------------------------------------------ HTTP Live Streaming
def hls(tid, ops, files, out, rc, err):
    """A trace for each level: the playlist and its segments, as a player gets them."""
    res = []
    ls = levels(ops)
    for q, (rate, names) in enumerate(ls):
        ev = begin(ops, files, names, rc)
        res.append({"id": "%s#%d" % (tid, q), "ev": ev})
        try:
            lists = dict(mains(out + "/main.m3u8"))
            segs, key, first = playlist(out + "/" + lists.pop(rate * 1000 + 96000))
            if len(lists) != len(ls) - 1:
                raise ValueError("levels")
            for n, (dur, uri) in enumerate(segs):
                b = read(out + "/" + uri)
                if b is None:
                    raise ValueError(uri)
                if key is not None:
                    b = clear(b, read(out + "/" + key), first + n)
                at = int(uri.rsplit("_", 1)[1].split(".")[0])
                ev.append({"op": "segment", "at": long(at), "dur": long(dur), "p": [list(b[i:i + 188]) for i in range(0, len(b), 188)]})
        except (ValueError, KeyError, IndexError, TypeError, AttributeError, OSError) as e:
            ev.append({"op": "unreadable", "why": repr(e)})
            continue
        ev.append({"op": "done"})
    return res


def mains(p):
    l = read(p).decode().split("\n")
    if l[0].strip() != "#EXTM3U":
        raise ValueError("main")
    for i, x in enumerate(l):
        if x.startswith("#EXT-X-STREAM-INF:"):
            yield int(x.split("BANDWIDTH=")[1].split(",")[0]), l[i + 1].strip()


def playlist(p):
    l = [x.strip() for x in read(p).decode().split("\n")]
    segs, key, first, dur, most = [], None, None, None, 0
    if l[0] != "#EXTM3U" or "#EXT-X-ENDLIST" not in l:
        raise ValueError("playlist")
    for x in l:
        if x.startswith("#EXT-X-MEDIA-SEQUENCE:"):
            first = int(x.split(":")[1])
        elif x.startswith("#EXT-X-KEY:"):
            if "METHOD=AES-128" not in x or "IV=" in x:
                raise ValueError(x)
            key = x.split('URI="')[1].split('"')[0]
        elif x.startswith("#EXT-X-TARGETDURATION:"):
            most = int(x.split(":")[1])
        elif x.startswith("#EXTINF:"):
            a, b = x[8:].split(",")[0].split(".")
            dur = int(a) * 10000000 + int((b + "0000000")[:7])
        elif x and x[0] != "#":
            segs.append((dur, x))
            if (dur + 5000000) // 10000000 > most:
                raise ValueError("target duration")
    return segs, key, first


def clear(b, key, n):
    """What the stand-in of the cipher hid, as a player shows it: the vector of a segment is its number."""
    if len(key) != 16 or len(b) % 16 or not b:
        raise ValueError("encrypted")
    iv = n.to_bytes(16, "big")
    prev = iv + b[:-16]
    t = bytes((x - key[i % 16] - 5 * prev[i] - i % 16) & 255 for i, x in enumerate(b))
    if not 1 <= t[-1] <= 16 or t[-t[-1]:] != bytes([t[-1]]) * t[-1]:
        raise ValueError("padding")
    return t[:-t[-1]]


def name(t, bw, at=None):
    return t.replace("$Bandwidth$", str(bw)).replace("$Time$", str(at)).replace("/", "_")


def manifest(p):
    ns = "{urn:mpeg:dash:schema:mpd:2011}"
    sets = []
    periods = ET.parse(p).getroot().findall(ns + "Period")
    if len(periods) != 1:
        raise ValueError("periods")
    for a in periods[0].findall(ns + "AdaptationSet"):
        t = a.find(ns + "SegmentTemplate")
        at, now = [], 0
        for s in t.find(ns + "SegmentTimeline").findall(ns + "S"):
            now = int(s.get("t", now))
            for i in range(min(int(s.get("r", 0)), 9999) + 1):
                at.append((now, int(s.get("d"))))
                now += int(s.get("d"))
        sets.append({"video": a.get("contentType") == "video", "scale": int(t.get("timescale", 1)), "init": t.get("initialization"), "media": t.get("media"), "at": at,
                     "bw": [int(r.get("bandwidth")) for r in a.findall(ns + "Representation")]})
    return sets


def span(rng, ts):
    """The whole, or a part of it."""
    return (0, 0) if rng.random() < 0.5 else interval(rng, ts)


def sample(rng, c, hls):
    if not hls or c == "a":
        return F.blob(rng, rng.randrange(3, 10) if not hls or rng.random() < .9 else rng.randrange(150, 200))
    d = b""
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        n = rng.randrange(1, 12) if rng.random() < .8 else rng.randrange(100, 400)
        d += struct.pack(">I", n) + F.blob(rng, n)
    return d


def films(rng, kinds, n, q, hls=False, many=0, sure=False):
    """n inputs in q qualities: the same moments, other pictures."""
    beat = [rng.choice(((8000, 1024), (11025, 1024), (7350, 1024), (48000, 6144)) if not hls else ((8000, 1024), (11025, 1024), (44100, 1024), (48000, 1024))) for _ in kinds]
    sps, pps = [media.rnd_sps(rng) for _ in range(q)], media.rnd_pps(rng)
    o, names = [], []
    for i in range(n):
        ts = []
        for c, (rate, tick) in zip(kinds, beat):
            k = F.video(rng, many or rng.randrange(3, 26), gop=1 if many else None) if c == "v" else F.audio(rng, n=rng.randrange(6, 30) if rng.random() < .6 else rng.randrange(3, 9))
            k.samples = [sample(rng, c, hls) for _ in k.samples]
            if c == "a":
                k.scale, k.durs = rate, [tick] * len(k.durs)
            if many:
                k.sync = list(range(many))
            if sure and c == "v":
                n_ = len(k.durs)
                k.samples = [sample(rng, c, hls) for _ in range(n_)]
                k.sync, k.comps = None, None
                k.durs = [(1000000 if k.scale == 10000000 else k.durs[0]) * rng.choice((1, 1, 2, 4))] * n_
            if c == "v" and k.sync is None:
                k.durs = [k.durs[0]] * len(k.durs)
            k.offset = F.late(rng, 1000) if "v" in kinds else None
            ts.append(k)
        b = F.movie(rng, ts, 1000)
        if "v" in kinds and "a" in kinds and min(F.over(k) for k in ts if k.kind == b"soun") < min(F.due(k)[0] for k in ts if k.kind == b"vide") + 3000000:
            return films(rng, kinds, n, q, hls, many, sure)
        row = []
        for j in range(q):
            if j:
                for k in ts:
                    if k.kind == b"vide":
                        k.samples = [sample(rng, "v", hls) for _ in k.samples]
                b = F.movie(rng, ts, 1000)
            row.append("f%d%d" % (i, j))
            o.append("file %s %s" % (row[-1], b.hex()))
        names.append((span(rng, ts), row))
    return o, names


def order(o, names, rng, extra):
    q = len(names[0][1])
    rates = rng.sample(range(100, 3000), q)
    for (a, b), row in names:
        o.append("input %s %d %d" % (row[0], a, b))
        o += ["path " + r for r in row[1:]]
        o += ["set bitrate %d" % r for r in rates]
    return o + extra


def mpd(rng, i):
    kinds = rng.choice(("va", "va", "va", "av", "v", "a"))
    o, names = films(rng, kinds, rng.choice((1, 1, 1, 2, 3)), rng.choice((1, 1, 2, 3)) if "v" in kinds else 1)
    e = ["kinds " + kinds, "set kind dash", "set segment %d" % rng.choice((2000000, 3000000, 5000000, 10000000, 20000000, rng.randrange(2800000, 9000000)))]
    if rng.random() < 0.3:
        e.append("set audio_bitrate %d" % rng.choice((48000, 128000, 64001)))
    if rng.random() < 0.3:
        e.append("set videotimescale %d" % rng.choice((90000, 30000)))
    if rng.random() < 0.3:
        e.append("set audiotimescale %d" % rng.choice((90000, 48000)))
    return script("p%d" % i, "mg", order(o, names, rng, e))


def live(rng, i):
    kinds = rng.choice(("va", "va", "va", "av", "v"))
    o, names = films(rng, kinds, rng.choice((1, 1, 1, 2, 3)), rng.choice((1, 1, 2)), True)
    e = ["kinds " + kinds, "set kind hls", "set segment %d" % rng.choice((2000000, 3000000, 5000000, 10000000, 20000000, rng.randrange(2800000, 9000000)))]
    if rng.random() < 0.25:
        e.append("set key " + F.blob(rng, 16).hex())
    return script("h%d" % i, "mg", order(o, names, rng, e))


def crossing(rng, i, kind="hls"):
    """Every picture is an access point: a segment may begin in one file and end in the next."""
    kinds = "v"
    o, names = films(rng, kinds, rng.choice((2, 2, 3)), 1, kind == "hls", sure=True)
    e = ["kinds " + kinds, "set kind " + kind, "set segment %d" % rng.choice((500000, 2000000, 3000000, 5000000, 10000000, rng.randrange(2800000, 12000000)))]
    return script("c%d" % i, "mg", order(o, names, rng, e))


def endless(rng, i):
    """More segments than a byte can number."""
    o, names = films(rng, "v", 1, 1, True, rng.randrange(258, 275))
    names = [((0, 0), names[0][1])]
    return script("l%d" % i, "mg", order(o, names, rng, ["kinds v", "set kind hls", "set segment 1010000", "set key " + F.blob(rng, 16).hex()]))


def Y01(ctx):
    x = exe(ctx)
    sc = [mpd(ctx.rng, i) for i in range(1000 if ctx.thorough else 300)] + [crossing(ctx.rng, i, "dash") for i in range(300 if ctx.thorough else 40)]
    ctx.conform("PresentTrace", sc, lambda s: run(ctx, x, s, dash), classify=lambda t, k, e: e.get("op"))


def Y02(ctx):
    x = exe(ctx)
    sc = [live(ctx.rng, i) for i in range(1500 if ctx.thorough else 250)] + [crossing(ctx.rng, i) for i in range(300 if ctx.thorough else 40)] + [endless(ctx.rng, 0)]
    ctx.conform("HlsTrace", sc, lambda s: run(ctx, x, s, hls), classify=lambda t, k, e: e.get("op"))


CHECKS = {"Y01": Y01, "Y02": Y02}
