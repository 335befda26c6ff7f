"""Dates and times: X01."""
import media
from vt import script


def exe(ctx):
    return ctx.build("time", ["time_driver.cpp"], core=["src/mg/core/nx/util.cpp", "src/mg/core/nx/ctime.cpp"])


def days(y, m):
    return 29 if m == 2 and (y % 4 == 0 and y % 100 or y % 400 == 0) else 28 if m == 2 else 30 if m in (4, 6, 9, 11) else 31


def day(rng):
    y = rng.choice((1904, 1970, 1969, 2000, 1900, 2100, 2024, 2023, rng.randrange(1601, 2400), rng.randrange(1900, 2050)))
    m = rng.choice((1, 2, 2, 3, 12, rng.randrange(1, 13)))
    return y, m, rng.choice((1, days(y, m), rng.randrange(1, days(y, m) + 1)))


def text(rng):
    y, m, d = day(rng)
    s = "%04d-%02d-%02d %02d:%02d:%02d.%03d" % (y, m, d, rng.choice((0, 23, rng.randrange(24))), rng.choice((0, 59, rng.randrange(60))), rng.choice((0, 59, rng.randrange(60))), rng.choice((0, 1, 9, 10, 99, 100, 999, rng.randrange(1000))))
    return s[:rng.choice((10, 13, 16, 19, 23, 23, 23))]


def one(rng, i):
    z = rng.choice((0, 0, 60, -300, 330, -210, 845, -720, 5, -5, 600, 540))
    o, now = [], set()
    live = set()
    for _ in range(rng.randrange(8, 20)):
        x = rng.randrange(1, 5)
        k = rng.choice(("date", "parse", "parse", "now", "reset", "show", "show", "diff", "diff", "diff", "format", "elapsed"))
        if k in ("date", "parse", "now", "reset"):
            live.add(x)
            (now.add if k in ("now", "reset") else now.discard)(x)
        if k == "date":
            o.append("date %d %d %d %d" % ((x,) + day(rng)))
        elif k == "parse":
            o.append("parse %d %d %s" % (x, rng.randrange(2), text(rng).encode().hex()))
        elif k in ("now", "reset"):
            o.append("%s %d %d" % (k, x, rng.randrange(2)))
        elif k == "elapsed" and now:
            o.append("elapsed %d" % rng.choice(sorted(now)))
        elif k == "diff" and live:
            o.append("diff %d %d" % (rng.choice(sorted(live)), rng.choice(sorted(live))))
        elif k in ("show", "format") and live:
            o.append("%s %d" % (k, rng.choice(sorted(live))))
    o += ["show %d" % x for x in sorted(live)] + ["diff %d %d" % (x, y) for x in sorted(live) for y in sorted(live)]
    return script("d%d" % i, "time %d" % z, o)


def X01(ctx):
    ctx.model("CalendarMC", "CalendarMCt.cfg" if ctx.thorough else "CalendarMC.cfg", what="the days before a date are counted right over all leap rules")
    x = exe(ctx)
    ctx.conform("TimeTrace", [one(ctx.rng, i) for i in range(6000 if ctx.thorough else 500)], lambda s: ctx.drive(x, s), classify=lambda t, k, e: e.get("op"))
    media.mux(ctx, "dates", 40, 400)


CHECKS = {"X01": X01}
