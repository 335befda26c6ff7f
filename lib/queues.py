"""The queues of media samples: Q01 (one user), Q02 (several threads)."""
from vt import script
import conc

KINDS = ("fixed", "drop", "grow")
DRV = "queue_driver.cpp"


def head(rng, kind, item=36):
    return rng.choice((item - 12, item, item + 1, 40, 80, 100, 120, 160, 200, 203, 320, 400)) if kind != "grow" else rng.choice((1, 20, 40, 80, 120, 200))


def random_ops(rng, kind, room, n):
    ops, i, held = [], 0, 0
    for _ in range(n):
        k = rng.choice(("push", "push", "push", "push", "pushr", "take", "take", "take", "peek", "del", "size", "clear" if rng.random() < 0.15 else "size"))
        if k in ("push", "pushr"):
            i += 1
            ops.append("0 %s %d %d" % (k, i, rng.choice((0, 1, 4, 10, 20, 24, 44, 50, 64, 100, max(0, room - 36), max(0, room - 35), room // 2))))
        elif k == "take":
            ops.append("0 take %d" % rng.choice((1000, 1000, 1000, 10, 0)))
        elif k == "peek":
            ops.append("0 peek %d" % rng.randrange(2))
        else:
            ops.append("0 " + k)
    return ops


def Q01(ctx):
    rng, sc = ctx.rng, []
    exe = ctx.build("queue", [DRV])
    unit = 40
    for k in KINDS:
        ctx.model("RingQueue", "RingQueue_%s.cfg" % k, what="items on one block, wrapping: outcomes allowed, apart, inside the block, intact (%s)" % k)
    for k in KINDS:
        for b in ctx.scripts_from("RingQueue", "RingQueueGen_%s.cfg" % k):
            ops, i = [], 0
            for o in b["h"]:
                if o[0] == "push":
                    i += 1
                    # k units of body and one of overhead: unit bytes each
                    ops.append("0 pushr %d %d" % (i, (o[1] + 1) * unit - 36))
                else:
                    ops.append("0 take 1000")
            ops += ["0 size"] + ["0 take 1000"] * 5
            sc.append(script("g%d" % len(sc), "%s %d" % (k, b["room"] * unit), ops))
    for i in range(20000 if ctx.thorough else 2500):
        k = rng.choice(KINDS)
        room = head(rng, k)
        sc.append(script("r%d" % i, "%s %d" % (k, room), random_ops(rng, k, room, rng.choice((6, 12, 25, 40)))))
    ctx.conform("QueueTrace", sc, lambda s: ctx.drive(exe, s))


def Q02(ctx):
    rng, sc = ctx.rng, []
    t = "|-fsanitize=thread"
    exe = ctx.build("queuex", ["vsched.cpp", DRV + t + " -DVT_SCHED"], core=[s + t for s in conc.SRC], asan=False,
                    link=["-rdynamic"], libs=("-luv", "-lpthread", "-ldl"))
    for i in range(700 if ctx.thorough else 80):
        k = rng.choice(KINDS)
        room = rng.choice((40, 80, 120, 200)) if k != "grow" else rng.choice((1, 40, 80))
        n, progs = 0, {}
        producers = rng.choice((1, 1, 2, 2, 3))
        for t in range(1, producers + 1):
            p = []
            for _ in range(rng.choice((1, 2, 3))):
                n += 1
                p.append("pushr %d %d" % (n, rng.choice((0, 4, 4, 24, 44, 84))))
            if rng.random() < 0.2:
                p.append(rng.choice(("clear", "peek 0", "take 1000")))
            progs[t] = p
        single = k != "drop" and rng.random() < 0.4 and not any(x.split()[0] in ("clear", "take") for p in progs.values() for x in p)
        for t in range(producers + 1, producers + 1 + (1 if single else rng.choice((1, 1, 2)))):
            p = []
            for _ in range(rng.choice((2, 3, 4))):
                p.append(rng.choice(("take1 1000",) * 3 + ("size", "del1", "del1") + (("peek1",) * 2 if k == "grow" else ())) if single else rng.choice(("take 1000", "take 1000", "take 10", "peek 0", "peek 1", "del", "size" if k == "grow" else "take 1000")))
            progs[t] = p
        progs[0] = ["size"] + ["take 1000"] * (n + 1)
        ops = ["%d %s" % (t, o) for t, p in sorted(progs.items()) for o in p]
        sc.append(script("q%d" % i, "%d %d %s %d" % (1500 if ctx.thorough else 300, rng.randrange(10**6), k, room), ops))
    conc.run(ctx, "QueueTrace", exe, sc)


CHECKS = {"Q01": Q01, "Q02": Q02}
