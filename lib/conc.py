"""Threads under the deterministic scheduler: S01-S04."""
from vt import script, REPO

SRC = ["src/mg/core/thread.cpp", "src/mg/core/uvbase.cpp", "src/mg/core/nx/util.cpp"]


def build(ctx, name, driver, core, uv=False):
    t = "|-fsanitize=thread"
    own = ["vsched.cpp"] + (["uvstub.cpp"] if uv else [])
    return ctx.build(name, own + [driver + t], core=[s + t for s in core], asan=False,
                     link=["-rdynamic"], libs=("-luv", "-lpthread", "-ldl"))


def run(ctx, module, exe, scripts, classify=None):
    def key(tr, k, e):
        if e.get("op") == "ret":    # which call it is that returned
            for x in reversed(tr["ev"][:k - 1]):
                if x.get("op") == "call" and x.get("t") == e.get("t"):
                    return "ret " + str(x.get("f"))
        return e.get("op", "?")
    ctx.conform(module, scripts, lambda s: ctx.drive(exe, s, counters=True), classify=classify or key)


def text(i, n, seed, progs):
    ops = []
    for t, p in progs.items():
        for o in p:
            ops.append("%d %s" % (t, o))
    return script(i, "%d %d" % (n, seed), ops)


def S01(ctx):
    rng, sc = ctx.rng, []
    exe = build(ctx, "sync", "sync_driver.cpp", SRC)
    ctx.model("SignalEventMC", "SignalEventMCt.cfg" if ctx.thorough else "SignalEventMC.cfg", what="the event built from a lock, a condition and a generation count refines the abstract event")
    for i in range(600 if ctx.thorough else 90):
        progs = {}
        for t in range(1, rng.choice((3, 3, 4, 4, 5))):
            p = []
            for _ in range(rng.choice((1, 1, 2, 3))):
                e = 0 if rng.random() < 0.8 else 1
                p.append(rng.choice(("wait %d 0", "wait %d 0", "signal %d 0", "signal %d 0", "reset %d 0", "twait %d 5", "twait %d 0", "issig %d 0", "nap %d 3", "settle %d 0")) % e)
            progs[t] = p
        # what is waited for should be signaled by somebody
        if rng.random() < 0.8:
            t = rng.choice(list(progs))
            if rng.random() < 0.5:
                progs[t].append("settle 0 0")
            progs[t].append("signal 0 0")
            if rng.random() < 0.5:
                progs[t].append("reset 0 0")
        sc.append(text("s%d" % i, 2500 if ctx.thorough else 500, rng.randrange(10**6), progs))
    run(ctx, "SyncTrace", exe, sc)


def S02(ctx):
    rng, sc = ctx.rng, []
    exe = build(ctx, "sync", "sync_driver.cpp", SRC)
    ctx.model("SignalEventMC", "SignalEventMCt.cfg" if ctx.thorough else "SignalEventMC.cfg", what="the event built from a lock, a condition and a generation count refines the abstract event")
    for i in range(600 if ctx.thorough else 90):
        progs = {}
        for t in range(1, rng.choice((3, 4, 4))):
            p = []
            for _ in range(rng.choice((1, 2, 3))):
                p.append(rng.choice(("twait 0 %d", "twait 0 %d", "twait 0 %d", "nap 0 %d", "signal 0 %d", "reset 0 %d", "issig 0 %d", "settle 0 %d")) % rng.choice((0, 1, 5, 10, 20, 1000, 5000, 4000000)))
            progs[t] = p
        if i % 3 == 0:      # released by a signal that is taken back at once
            t = max(progs)
            progs[t] = ["settle 0 0"] + (["nap 0 1"] if rng.random() < 0.3 else []) + ["signal 0 0", "reset 0 0"] + progs[t][:1]
            progs[1][0] = "twait 0 %d" % rng.choice((5, 20, 1000))
        sc.append(text("s%d" % i, 2500 if ctx.thorough else 500, rng.randrange(10**6), progs))
    run(ctx, "SyncTrace", exe, sc)


def S03(ctx):
    rng, sc = ctx.rng, []
    exe = build(ctx, "sync", "sync_driver.cpp", SRC)
    for i in range(600 if ctx.thorough else 90):
        progs = {}
        for t in range(1, rng.choice((3, 3, 4, 4, 5))):
            p, held = [], []
            for _ in range(rng.choice((2, 3, 4, 5))):
                k = rng.random()
                m = 0 if rng.random() < 0.8 else 1
                if k < 0.35:
                    p.append("lock %d 0" % m)
                    held.append(m)
                elif k < 0.5:
                    p.append("guard %d 0" % m)
                elif k < 0.7 or not held:
                    p.append("tryun %d 0" % m)
                else:
                    p.append("unlock %d 0" % held.pop(rng.randrange(len(held))))
            while held:
                p.append("unlock %d 0" % held.pop())
            progs[t] = p
        sc.append(text("s%d" % i, 2500 if ctx.thorough else 500, rng.randrange(10**6), progs))
    run(ctx, "SyncTrace", exe, sc)


def S04(ctx):
    rng, sc = ctx.rng, []
    exe = build(ctx, "sync", "sync_driver.cpp", SRC)
    for i in range(600 if ctx.thorough else 90):
        ks = (11,) if rng.random() < 0.5 else (11, 12)
        progs = {1: [], 2: []}
        for k in ks:
            b = []
            for _ in range(rng.randrange(4)):
                b.append(rng.choice(("should 0 0", "should 0 5", "should 0 2000", "nap 0 3", "signal 0 0", "wait 0 0", "guard 0 0", "twait 0 4")))
            progs[k] = b
        p = []
        for k in ks:
            if rng.random() < 0.9:
                p.append("start %d 0" % k)
        for _ in range(rng.randrange(4)):
            k = rng.choice(ks)
            p.append(rng.choice(("stop %d 0" % k, "isdone %d 0" % k, "isdone %d 7" % k, "isdone %d 3000" % k, "nap 0 4", "signal 0 0", "settle 0 0")))
        for k in ks:
            if rng.random() < 0.7:
                p.append("join %d 0" % k)
                if rng.random() < 0.4:
                    p.append(rng.choice(("join %d 0", "isdone %d 0")) % k)
        progs[1] = p
        for _ in range(rng.randrange(3)):
            k = rng.choice(ks)
            progs[2].append(rng.choice(("stop %d 0" % k, "isdone %d 9" % k, "signal 0 0", "nap 0 2")))
        if not progs[2]:
            progs[2].append("signal 0 0")
        sc.append(text("s%d" % i, 2500 if ctx.thorough else 500, rng.randrange(10**6), progs))
    run(ctx, "SyncTrace", exe, sc)


CHECKS = {"S01": S01, "S02": S02, "S03": S03, "S04": S04}


def P01(ctx):
    """Values: registering and delivering in every order."""
    rng, sc = ctx.rng, []
    exe = build(ctx, "promise", "promise_driver.cpp", SRC)
    ctx.model("PromiseMC", "PromiseMC.cfg", what="all registrations and deliveries by up to four calls on two promises: exactly once, nothing lost, nobody stuck")
    for i in range(900 if ctx.thorough else 120):
        progs = {0: [], 1: [], 2: [], 3: []}
        nf = rng.choice((0, 1, 1, 2))
        for k in range(nf):
            progs[0].append("fwd %d %s %d" % (k + 1, "none" if rng.random() < 0.7 else "auto", k + 2))
        ops = ["callcb 1 x 7"]
        for p in range(1, 2 + nf):
            if rng.random() < 0.9:
                ops.append("setcb %d ok 0" % p)
        if rng.random() < 0.3 and not nf:
            ops += ["setcb 2 ok 0", "callcb 2 x 8"]
        if rng.random() < 0.2:
            ops.append("seter 1 %s 0" % rng.choice(("go", "stop")))
        deal(rng, ops, progs)
        sc.append(text("p%d" % i, 1500 if ctx.thorough else 300, rng.randrange(10**6), progs))
    run(ctx, "PromiseTrace", exe, sc, classify=lambda t, k, e: e.get("op"))


def deal(rng, ops, progs):
    rng.shuffle(ops)
    for o in ops:
        progs[rng.choice((0, 1, 1, 2, 2, 3, 3))].append(o)
    for t in (1, 2, 3):
        if not progs[t]:
            del progs[t]


def P02(ctx):
    """Errors: thrown by handlers or put from outside, along the chain."""
    rng, sc = ctx.rng, []
    exe = build(ctx, "promise", "promise_driver.cpp", SRC)
    ctx.model("PromiseMC", "PromiseMC.cfg", what="all registrations and deliveries by up to four calls on two promises: exactly once, nothing lost, nobody stuck")
    for i in range(900 if ctx.thorough else 120):
        progs = {0: [], 1: [], 2: [], 3: []}
        nf = rng.choice((0, 0, 1, 1, 2))
        auto = set()
        for k in range(nf):
            a = rng.random() < 0.3
            if a:
                auto.add(k + 2)
            progs[0].append("fwd %d %s %d" % (k + 1, "auto" if a else "none", k + 2))
        ops = []
        outside = rng.random() < 0.4
        if outside:
            ops.append("caller 1 x 9")
        else:
            ops.append("callcb 1 x 7")
        thrower = 0 if outside else rng.randrange(1, 2 + nf)
        for p in range(1, 2 + nf):
            if rng.random() < 0.95:
                ops.append("setcb %d %s %d" % (p, "throw" if p == thrower else "ok", 50 + p if p == thrower else 0))
            if p not in auto and rng.random() < 0.8:
                ops.append("seter %d %s 0" % (p, rng.choice(("go", "go", "stop", "rethrow", "silent"))))
        deal(rng, ops, progs)
        sc.append(text("p%d" % i, 1500 if ctx.thorough else 300, rng.randrange(10**6), progs))
    run(ctx, "PromiseTrace", exe, sc, classify=lambda t, k, e: e.get("op"))


def R01(ctx):
    rng, sc = ctx.rng, []
    exe = build(ctx, "resource", "resource_driver.cpp", SRC)
    ctx.model("ResourceMCx", "ResourceMC.cfg", what="a count taken before the old one is given back: destroyed once, never while held")
    for i in range(1200 if ctx.thorough else 150):
        n = rng.choice((1, 2, 2, 3))
        progs = {0: [], 9: []}
        oid = 1
        shared = rng.random() < 0.6
        progs[0].append(("create 9 %d" if rng.random() < 0.5 else "new 9 %d") % oid)
        if rng.random() < 0.5:
            progs[0].append("cleanup 9 0")
        for t in range(1, n + 1):
            mine = [2 * t - 1, 2 * t]
            if not shared or rng.random() < 0.5:
                progs[0].append("assign %d 9" % mine[0])
        if not shared:
            progs[0].append("drop 9 0")
        for t in range(1, n + 1):
            mine, p = [2 * t - 1, 2 * t], []
            full = dict((x, None) for x in mine)
            for _ in range(rng.randrange(2, 7)):
                a = rng.choice(mine)
                b = rng.choice(mine + ([9] if shared else []) + [a])
                k = rng.random()
                if k < 0.3:
                    p.append("assign %d %d" % (a, b))
                elif k < 0.45:
                    p.append("copy %d %d" % (a, b))
                elif k < 0.75:
                    p.append("drop %d 0" % a)
                elif k < 0.85:
                    oid += 1
                    p.append("new %d %d" % (a, oid))
                    if rng.random() < 0.3:
                        p.append("cleanup %d 0" % a)
                else:
                    p.append("use %d 0" % a)
                if rng.random() < 0.15 and p[-1].startswith(("assign", "copy")):
                    p.append("%s %d 0" % (("count",) + (a,)))
            progs[t] = p
        for x in rng.sample(range(1, 10), 9):
            if rng.random() < 0.2:
                progs[9].append("use %d 0" % x)
            progs[9].append("drop %d 0" % x)
        sc.append(text("r%d" % i, 1500 if ctx.thorough else 250, rng.randrange(10**6), progs))
    run(ctx, "ResourceTrace", exe, sc, classify=lambda t, k, e: e.get("op"))


CHECKS.update({"P01": P01, "P02": P02, "R01": R01})
