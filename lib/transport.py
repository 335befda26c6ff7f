"""Transport streams: U01 (writing), U02 (reading)."""
import media
from vt import script

DAY = 954437176888      # where 33 bits of 90 kHz are used up, in 100 ns


def exe(ctx):
    return media.build(ctx, "ts", ["ts_driver.cpp"], core=["mp4edit.cpp", "wincrc.cpp"])


def rnd_bytes(rng, n):
    # no start codes
    b = bytearray(rng.choice((0, 1, 2, 3, 255, rng.randrange(256))) if rng.random() < 0.3 else rng.randrange(256) for _ in range(n))
    for i in range(2, n):
        if not b[i - 1] and not b[i - 2] and b[i] < 4:
            b[i] = 0x47
    return bytes(b)


def size(rng, over, big):
    """A number of bytes such that with what comes before them a packet is nearly full."""
    if big:
        return rng.choice((65521, 65522, 65534, 65535, rng.randrange(65500, 65545), 70000)) - over + 19
    k = rng.choice((0, 1, 1, 1, 2, 3, 5))
    r = rng.choice((-9, -8, -7, -3, -2, -1, 0, 1, 2, 7, 8, rng.randrange(184)))
    return 184 * k + r - over


def one(rng, i, mode):
    ops, streams = [], []
    n = rng.choice((1, 1, 2, 2, 3))
    kinds = [rng.choice(("v", "a", "a", "v", "t" if i % 5 == 0 else "a")) for _ in range(n)]
    if rng.random() < 0.6:
        kinds[0] = "v"
    for k in kinds:
        if k == "v":
            s, p = media.rnd_sps(rng), media.rnd_pps(rng)
            ops.append("video %s %s" % (s.hex(), p.hex()))
            streams.append((k, len(s) + len(p) + 8))
        elif k == "a":
            ops.append("audio %d %d %d" % (rng.choice((2, 2, 1, 3, 4)), rng.choice(media.RATES + (96000, 88200, 64000, 7350)), rng.choice((1, 2, 2, 3, 4, 5, 6, 8))))
            streams.append((k, 0))
        else:
            ops.append("timecode")
            streams.append((k, 0))
    pcr = -1
    if "v" not in kinds or rng.random() < 0.2:
        c = [j for j, k in enumerate(kinds) if k == "a"]
        if c and rng.random() < 0.8:
            pcr = rng.choice(c)
            ops.append("pcr %d" % pcr)
    if rng.random() < 0.4:
        ops.append("offset %d %d" % (rng.choice((0, 0, 2000000, 10000000, 1400000)), rng.choice((0, 0, 10000, 500000))))
    if rng.random() < 0.3:
        ops.append("once %d" % rng.randrange(2))
    if rng.random() < 0.4:
        ops.append("continuity %d" % rng.randrange(256))
    t = rng.choice((0, 0, 10000000, 333667, 119304647111 - 3000000, 119304647111 * 3, DAY - 2500000, DAY - 500000, DAY * 3 + 77, 36000000000))
    if mode == "hls" and rng.random() < 0.9:
        ops.append("base %d" % rng.choice((0, 0, 100000000, 3600 * 10000000, DAY - 1000000)))
    done = False
    for j in range(rng.randrange(3, 9) if rng.random() < 0.9 else 24):
        s = rng.randrange(n)
        k, ps = streams[s]
        big = i % 25 == 7 and k == "v" and not done
        if k == "v":
            sync = rng.random() < 0.4
            over = 19 + 6 + (ps if sync else 0)
            nals = [rnd_bytes(rng, rng.randrange(1, 40)) for _ in range(rng.choice((0, 0, 1, 2)))]
            r = max(1, size(rng, over + sum(len(x) + 4 for x in nals) + 4 + (8 if sync and not big else 0), big))
            done |= big
            nals.append(rng.randbytes(r) if big else rnd_bytes(rng, r))
            dec = t
            comp = t + rng.choice((0, 0, 400000, 800000, 333667))
        elif k == "a":
            sync = True if s == pcr or rng.random() < 0.7 else False
            r = min(8184, max(1, size(rng, 14 + 7 + (2 if sync else 0) + (11 if s == pcr else 0), False)))
            nals = [rnd_bytes(rng, r)]
            comp = dec = t
        else:
            nals, sync, comp, dec = [bytes(4)], False, t, t
        ops.append("add %d %s %d %d %d %s" % (s, "v" if k == "v" else "a", sync, comp, dec, " ".join(x.hex() for x in nals)))
        t += rng.choice((0, 10000, 200000, 400000, 333667, 213333))
        if j > 4 and rng.random() < 0.06:
            ops.append("stuff")
    return script("u%d" % i, mode, ops)


def U01(ctx):
    rng = ctx.rng
    sc = [one(rng, i, "hls" if i % 4 == 3 else "ts") for i in range(4000 if ctx.thorough else 500)]
    ctx.model("TsMC", "TsMCt.cfg" if ctx.thorough else "TsMC.cfg", what="all ways to split the units of two streams into packets, and to lose packets: units come back whole or not at all")
    x = exe(ctx)
    ctx.conform("TsTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))


# ------------------------------------------------------------------ streams by the book
def crc(b):
    c = 0xffffffff
    for x in b:
        c ^= x << 24
        for _ in range(8):
            c = (c << 1 ^ 0x04c11db7) & 0xffffffff if c >> 31 else c << 1
    return c


def section(tid, sid, body, version=0):
    n = 5 + len(body) + 4
    b = bytes([tid, 0xb0 | n >> 8, n & 255]) + sid.to_bytes(2, "big") + bytes([0xc0 | version << 1 | 1, 0, 0]) + body
    return b + crc(b).to_bytes(4, "big")


def clock(tag, t):
    return bytes([tag << 4 | t >> 30 << 1 | 1, t >> 22 & 255, (t >> 15 & 127) << 1 | 1, t >> 7 & 255, (t & 127) << 1 | 1])


def pes(rng, sid, body, pts, dts, sized):
    h = (clock(3 if dts is not None else 2, pts) if pts is not None else b"") + (clock(1, dts) if dts is not None else b"")
    h += b"\xff" * rng.choice((0, 0, 0, 1, 3, 9))
    n = 3 + len(h) + len(body)
    return b"\0\0\1" + bytes([sid]) + (n if sized else 0).to_bytes(2, "big") + bytes([0x80 | rng.randrange(16), (0x80 if pts is not None else 0) | (0x40 if dts is not None else 0), len(h)]) + h + body


class Out:
    """The packets of every PID, split in any way."""
    def __init__(s, rng, jumps):
        s.rng, s.cc, s.jumps = rng, {}, jumps

    def unit(s, pid, d, whole=False):
        rng, p, at = s.rng, [], 0
        while at < len(d):
            n = 184 if rng.random() < 0.8 or whole else rng.choice((183, 182, 181, 176, 1, 0 if p else 50, rng.randrange(1, 184)))
            if not p:
                n = max(n, 50)
            n = min(n, len(d) - at)
            room, af = 184 - n, b""
            if room == 0 and rng.random() < 0.1 and n > 60:
                n, room = n - 8, 8
            if room:
                if room == 1:
                    af = b"\0"
                elif room >= 8 and rng.random() < 0.5:
                    af = bytes([room - 1, rng.choice((0x10, 0x50))]) + rng.randbytes(4) + bytes([rng.randrange(2) << 7 | 0x7e, 0x2a]) + b"\xff" * (room - 8)
                else:
                    af = bytes([room - 1, rng.choice((0, 0x40, 0x20))]) + b"\xff" * (room - 2)
            c = s.cc.get(pid, rng.randrange(16))
            pay = n > 0
            if s.jumps and pay and len(af) > 1 and at == 0 and rng.random() < 0.5:
                af = bytes([af[0], af[1] | 0x80]) + af[2:]
                c = rng.randrange(16)
            s.cc[pid] = (c + 1) % 16 if pay else c
            p.append(b"\x47" + bytes([(0x40 if at == 0 else 0) | pid >> 8, pid & 255, (0x20 if room else 0) | (0x10 if pay else 0) | c]) + af + d[at:at + n])
            assert len(p[-1]) == 188, len(p[-1])
            at += n
        return p


def adts(rng, body, protect):
    n = len(body) + (9 if protect else 7)
    ch = rng.choice((1, 2, 6))
    h = (0xfff << 44 | rng.choice((0, 1)) << 43 | (0 if protect else 1) << 40 | 1 << 38 | rng.choice((3, 4, 11)) << 34 | ch << 30 | n << 13 | 0x7ff << 2) 
    return h.to_bytes(7, "big") + (b"\x12\x34" if protect else b"") + body


def reading(rng, i):
    out, ops = Out(rng, i % 3 != 1), []
    npids = rng.choice((1, 1, 2, 2, 3))
    kinds = [rng.choice("va") for _ in range(npids)]
    pids = rng.sample((0x100, 0x101, 0x1ff, 0x20, 0x1ffe, 0x44, 0x1001), npids)
    mpid = rng.choice((0x1000, 0x30, 0x1fff - 5))
    progs = b"".join(rng.sample(([b"\0\0\xe0\x10"] if rng.random() < 0.3 else []) + [b"\0" + bytes([rng.randrange(1, 9)]) + (0xe000 | mpid).to_bytes(2, "big")], rng.choice((1, 2)) if False else 1)) if rng.random() < 0.6 else b"\0\0\xe0\x10\0\3" + (0xe000 | mpid).to_bytes(2, "big")
    if progs[:2] == b"\0\0" and len(progs) == 4:
        progs += b"\0\1" + (0xe000 | mpid).to_bytes(2, "big")
    desc = lambda: b"".join(bytes([rng.choice((5, 10, 0x52)), n]) + rng.randbytes(n) for n in [rng.randrange(0, 9) for _ in range(rng.choice((0, 0, 1, 2)))])
    d0 = desc() if rng.random() < 0.4 else b""
    if rng.random() < 0.2:
        # a program map that fills its packet, nearly, or takes two
        d0 = b"".join(b"\x05" + bytes([n]) + rng.randbytes(n) for n in (rng.randrange(60, 90), rng.randrange(40, 80)))
    m = (0xe000 | pids[0]).to_bytes(2, "big") + (0xf000 | len(d0)).to_bytes(2, "big") + d0
    for k, p in zip(kinds, pids):
        d = desc() if rng.random() < 0.3 else b""
        m += bytes([27 if k == "v" else 15]) + (0xe000 | p).to_bytes(2, "big") + (0xf000 | len(d)).to_bytes(2, "big") + d
    number = int.from_bytes(progs[-4:-2], "big")
    def point():
        n = rng.choice((0, 0, 0, 0, 1, 2, 20))
        return bytes([n]) + b"\xff" * n
    pat = point() + section(0, rng.randrange(65536), progs)
    pmt = point() + section(2, number, m)
    pad = lambda b: b + b"\xff" * (-len(b) % 184)
    tables = lambda: out.unit(0, pad(pat), True) + out.unit(mpid, pad(pmt), True)
    flow = []
    if rng.random() < 0.2:
        # tables that were damaged on the way come before the others
        for q, b in ((0, pat), (mpid, pmt)):
            if rng.random() < 0.7:
                x = bytearray(b)
                x[rng.randrange(x[0] + 4, len(x))] ^= 1 << rng.randrange(8)
                flow.append(out.unit(q, pad(bytes(x)), True))
    if rng.random() < 0.1:
        # tables that will be valid later
        for q, k, n, b in ((0, 0, 77, b"\0\7\xe3\x33"), (mpid, 2, number, b"\xe0\x99\xf0\0\x1b\xe0\x99\xf0\0")):
            x = bytearray(section(k, n, b)[:-4])
            x[5] &= 0xfe
            flow.append(out.unit(q, pad(point() + bytes(x) + crc(x).to_bytes(4, "big")), True))
    flow = [[x for u in flow for x in u] + tables()]
    t = rng.choice((0, 90000, (1 << 33) - 5000, rng.randrange(1 << 33)))
    sets = {p: (media.rnd_sps(rng), media.rnd_pps(rng)) for p in pids}
    for j in range(rng.randrange(3, 10)):
        x = rng.randrange(npids)
        k, p = kinds[x], pids[x]
        if rng.random() < 0.2 and isinstance(sets[p], list):
            sets[p] = tuple(sets[p])
        t = (t + rng.choice((0, 3600, 1800, 3003))) % (1 << 33)
        if k == "v":
            sc = lambda: rng.choice((b"\0\0\1", b"\0\0\0\1"))
            key = rng.random() < 0.4 or not isinstance(sets[p], list)
            nals = [b"\x09\xf0"]
            if key:
                nals += list(sets[p])
                sets[p] = list(sets[p])
            for _ in range(rng.choice((1, 1, 2, 3))):
                nals.append(bytes([rng.choice((0x65, 0x41, 0x06, 0x01)) if not key else 0x65]) + tail(rnd_bytes(rng, max(120 if key else 1, size(rng, 30, False)))))
            body = b"\0\0\0\1" + nals[0] + b"".join((b"\0\0\0\1" if y and (y[0] & 31) in (7, 8) or y[0] == 0x65 else sc()) + y for y in nals[1:])
            if not key and rng.random() < 0.06:
                # the rest of something
                body = bytes(x or 1 for x in rng.randbytes(rng.choice((1, 2, 3, 4, 50, 300))))
            if not key and rng.random() < 0.06:
                body += b"\0\0\1" + rng.choice((b"", b"", b"\x09", b"\x0c\x80"))
            d = pes(rng, 0xe0, body, t, t if rng.random() < 0.5 else None, rng.random() < 0.6 and len(body) < 65000)
        else:
            body = b"".join(adts(rng, rnd_bytes(rng, max(30, min(8100, size(rng, 30, False)))), rng.random() < 0.2) for _ in range(rng.choice((1, 1, 2, 4))))
            d = pes(rng, 0xc0, body, t, None, True)
        flow.append(out.unit(p, d))
        if rng.random() < 0.2:
            flow.append(tables())
    # packets of several PIDs may interleave
    if rng.random() < 0.5:
        rest, mixed = [list(u) for u in flow[1:]], list(flow[0])
        while rest:
            first = {}
            for u in rest:
                first.setdefault(u[0][1] & 31, {}) 
            ready, seen = [], set()
            for u in rest:
                key = (u[0][1] & 31, u[0][2])
                if key not in seen:
                    ready.append(u)
                seen.add(key)
            u = rng.choice(ready)
            mixed.append(u.pop(0))
            rest = [r for r in rest if r]
        flow = [mixed]
    p = [x for u in flow for x in u]
    if i % 3 == 1:
        p = faults(rng, p)
    while p:
        n = rng.choice((1, 2, 5, 40))
        ops.append("packets " + " ".join(x.hex() for x in p[:n]))
        p = p[n:]
    ops.append("end")
    for _ in range(rng.choice((0, 1, 3))):
        d = bytes(rng.choice((0, 0, 0, 1, 2, 3, 4, 0x80)) if rng.random() < 0.7 else rng.randrange(256) for _ in range(rng.choice((0, 1, 2, 3, 9, 40, 200))))
        ops.append("nal " + media.nal(rng.choice((0x67, 0x68, 0x41, 0x06, 0x65)), d + bytes([rng.choice((3, 3, 0x80, 1, 0x40, 0x1b))])).hex())
    return script("u%d" % i, "ts", ops)


def faults(rng, p):
    """Packets sent twice, lost, or damaged; streams entered in the middle."""
    if rng.random() < 0.3:
        del p[:rng.randrange(len(p) // 2)]
    out = []
    rate = rng.choice((0.01, 0.03, 0.1))
    for x in p:
        k = rng.choice("tttlle") if rng.random() < rate else ""
        if k == "e":
            b = bytearray(x)
            b[1] |= 0x80
            b[rng.randrange(4, 188)] ^= 0xff
            x = bytes(b)
        if k != "l":
            out += [x, x] if k == "t" else [x]
    return out or p


def tail(b):
    return b[:-1] + b"\x80" if b and not b[-1] else b


def U02(ctx):
    rng = ctx.rng
    sc = [reading(rng, i) for i in range(6000 if ctx.thorough else 700)]
    ctx.model("TsMC", "TsMCt.cfg" if ctx.thorough else "TsMC.cfg", what="all ways to split the units of two streams into packets, and to lose packets: units come back whole or not at all")
    x = exe(ctx)
    ctx.conform("TsReadTrace", sc, lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))


CHECKS = {"U01": U01, "U02": U02}
