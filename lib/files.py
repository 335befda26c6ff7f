"""Asynchronous files on a loop thread, under the deterministic scheduler: F01-F06, F08."""
from vt import script
import conc

SRC = conc.SRC + ["src/mg/core/file.cpp"]


class Gen:
    """A script of the owner that keeps to what a careful caller does: operations in flight never
    overlap, a file is drained before its bytes are read back, nothing is issued once the loop was
    told to end."""

    def __init__(self, rng, focus):
        self.r, self.focus, self.o = rng, focus, []
        self.len = [rng.choice((0, 3, 9, 14, 22)), rng.choice((-1, -1, 0, 8, 17))]
        self.init = list(self.len)
        self.state, self.pos, self.size, self.fl = ["none"] * 2, [0, 0], [0, 0], ["", ""]
        self.flight = [[], []]
        self.held = self.stopped = False

    def p(self, x):
        return self.r.random() < x

    def put(self, s):
        self.o.append(s)

    def drain(self, x):
        if self.held:
            self.put("release")
            self.held = False
        self.put("drain %d" % x)
        self.flight[x] = []

    def clear(self, x, lo, hi, wr):
        for a, b, w in self.flight[x]:
            if (w or wr) and lo < b and a < hi:
                return False
        return True

    def mode(self, throw=0.0):
        if self.p(throw):
            return self.r.choice(("t", "u"))
        return self.r.choice(("h", "h", "h", "n", "f"))

    def fault(self, x):
        return self.r.choice((-5, -28, -9)) if self.p(x) else 0

    def open(self, x, sync=None, flags=None, bad=0.0):
        if self.state[x] != "none" or self.held:
            return
        a = flags or self.r.choice(("r", "r", "rw", "w") if self.init[x] >= 0 else ("rw", "w"))
        if self.p(bad):
            a = self.r.choice(("m", "r"))
        sync = self.p(0.5) if sync is None else sync
        f = self.fault(bad)
        missing = a == "m" or (a == "r" and self.len[x] < 0)
        if missing:
            f = 0
        self.put("open %d %s %s %s %d" % (x, a, "sync" if sync else "async", self.mode(0.05 if self.focus == "F02" else 0), 0 if sync else f))
        if not sync:
            self.drain(x)
        ok = not missing and not (f and not sync)
        self.state[x] = "open" if ok else "bad"
        self.fl[x] = a
        if ok:
            if a == "w" or self.len[x] < 0:
                self.len[x] = 0
            self.size[x], self.pos[x] = self.len[x], 0

    def read(self, x, n=None, f=0.0, throw=0.0, chain=0.0, stop=0.0):
        if self.state[x] != "open" or self.fl[x] == "w":
            return
        n = n or self.r.choice((1, 2, 3, 4, 7, 12))
        if any(w for _, _, w in self.flight[x]):
            if self.held:
                return
            self.drain(x)
        m, c = self.mode(throw), 0
        if not self.held and self.p(chain):
            m, c = "h", self.r.choice((1, 3, 6))
        elif self.p(stop) and not self.stopped:
            m = "s"
        self.put("read %d %d %s %d %d" % (x, n, m, self.fault(f), c))
        k = max(0, min(n, self.size[x] - self.pos[x]))
        self.flight[x].append((self.pos[x], self.pos[x] + n, False))     # what it asks for, not what it gets
        self.pos[x] += k
        if c:
            self.pos[x] += max(0, min(c, self.size[x] - self.pos[x]))
            self.drain(x)
        if m == "s":
            self.stopped = True

    def write(self, x, n=None, f=0.0, throw=0.0):
        if self.state[x] != "open" or self.fl[x] == "r":
            return
        n = n or self.r.choice((1, 2, 3, 5, 8, 12))
        if not self.clear(x, self.pos[x], self.pos[x] + n, True):
            if self.held:
                return
            self.drain(x)
        self.put("write %d %d %s %d" % (x, n, self.mode(throw), self.fault(f)))
        self.flight[x].append((self.pos[x], self.pos[x] + n, True))
        self.pos[x] += n
        self.size[x] = max(self.size[x], self.pos[x])
        self.len[x] = max(self.len[x], self.size[x])

    def seek(self, x, past=True):
        if self.state[x] != "open":
            return
        self.pos[x] = self.r.choice((0, self.size[x], self.r.randrange(self.size[x] + 1), self.r.randrange(self.size[x] + 1), self.size[x] + self.r.choice((1, 4)) if past else 0))
        self.put("pos %d %d" % (x, self.pos[x]))

    def hold(self):
        if not self.held:
            self.put("hold")
            self.held = True

    def stops(self, x):
        """several handlers that each stop the loop, issued together"""
        if self.state[x] != "open" or self.fl[x] == "w" or self.stopped:
            return
        self.drain(x)
        self.hold()
        for _ in range(self.r.choice((2, 3, 4))):
            if self.p(0.6):
                self.read(x, stop=0.8)
                self.stopped = False
            else:
                self.write(1 - x)
        self.stopped = True
        self.release()

    def release(self):
        if self.held:
            self.put("release")
            self.held = False

    def close(self, x, sync=None, bad=0.0):
        if self.state[x] != "open" or self.held:
            return
        sync = self.p(0.5) if sync is None or self.stopped else sync
        if self.stopped:
            sync = True
        self.put("close %d %s %s %d" % (x, "sync" if sync else "async", self.mode(0.05 if self.focus == "F02" else 0), 0 if sync else self.fault(bad)))
        self.state[x] = "closed"
        if not sync and self.p(0.5):
            self.drain(x)

    def destroy(self, x):
        if self.held:
            self.release()
        self.put("destroy %d" % x)
        self.state[x] = "none"
        self.flight[x] = []

    def step(self, f=0.0, throw=0.0, bad=0.0, chain=0.0, stop=0.0, q=0.1):
        x = 0 if self.p(0.7) else 1
        if self.state[x] == "none":
            return None if self.stopped else self.open(x, bad=bad)
        if self.state[x] != "open":
            if self.p(0.4) and not self.stopped:
                self.destroy(x)
            return
        r = self.r.random()
        if self.stopped:
            if r < 0.5:
                self.drain(x)
            return
        if r < q:
            self.put(self.r.choice(("qpos", "qsize", "qeof", "qout")) + " %d" % x)
        elif r < q + 0.08:
            self.hold()
        elif r < q + 0.2:
            self.release()
        elif r < q + 0.27:
            self.drain(x)
        elif r < q + 0.33:
            self.put(self.r.choice(("nap 3", "nap 120", "now %d" % x)))
        elif r < q + 0.43:
            self.seek(x)
        elif self.fl[x] == "r" or (self.fl[x] == "rw" and r < q + 0.65):
            self.read(x, f=f, throw=throw, chain=chain, stop=stop)
        else:
            self.write(x, f=f, throw=throw)

    def finish(self, bad=0.0):
        self.release()
        if self.p(0.3):
            self.put("stop")
            self.stopped = True
            if self.p(0.4):
                self.put("stop")
        for x in self.r.sample((0, 1), 2):
            if self.state[x] == "open" and self.p(0.5):
                self.close(x, bad=bad)
        if self.p(0.3):
            self.put("check")
        late = self.p(0.3)
        if not late:
            for x in self.r.sample((0, 1), 2):
                self.put("destroy %d" % x)
        self.put("end")
        if late:
            for x in (0, 1):
                self.put("destroy %d" % x)
        return self

    def text(self, i, n):
        return script(i, "%d %d %d %d %d" % (n, self.r.randrange(10**6), self.r.choice((1, 2, 2, 3)), self.init[0], self.init[1]), self.o)


def scenario(rng, focus):
    g = Gen(rng, focus)
    k = {"F01": dict(chain=0.15), "F02": dict(f=0.12, throw=0.1, bad=0.06), "F03": dict(), "F04": dict(q=0.03),
         "F05": dict(f=0.15, throw=0.06, bad=0.1), "F06": dict(stop=0.12, q=0.03), "F08": dict(q=0.5)}[focus]
    if focus in ("F01", "F04") and rng.random() < 0.7:
        if g.init[0] < 9:
            g.init[0] = g.len[0] = 14
        g.open(0, flags=rng.choice(("r", "r", "rw")))
    if focus == "F03":
        g.open(0, flags=rng.choice(("w", "rw", "rw")))
        g.open(1, flags=rng.choice(("w", "rw")))
    if focus in ("F06", "F08"):
        g.open(0)
    for _ in range(rng.choice((4, 7, 10, 14))):
        if focus in ("F01", "F04", "F02") and rng.random() < 0.12:
            g.hold()
            for _ in range(rng.choice((2, 3, 4, 5))):
                if focus == "F02":
                    g.read(0, f=0.2, throw=0.1)
                else:
                    g.read(0)
            if focus == "F01" and rng.random() < 0.4:
                g.seek(0, False)
                g.read(0)
                g.write(0)
            g.release()
        elif focus == "F06" and rng.random() < 0.06:
            g.stops(0)
        elif focus == "F04" and rng.random() < 0.15:
            x = rng.choice((0, 0, 1))
            if g.state[x] == "open":
                g.close(x)
                g.destroy(x)
        else:
            g.step(**k)
    return g.finish(bad=0.1 if focus == "F05" else 0.0)


def classify(tr, k, e):
    if e.get("op") == "ret":
        return "ret " + str(e.get("f"))
    return e.get("op", "?")


def check(focus):
    def f(ctx):
        if focus in ("F01", "F02"):
            ctx.model("ReadOrder", "ReadOrderT.cfg" if ctx.thorough else "ReadOrder.cfg",
                      what="reads numbered by the issuer, completed in any order, served in order: every completion order and interleaving")
        elif focus in ("F04", "F05", "F06"):
            ctx.model("LoopLife", "LoopLifeT.cfg" if ctx.thorough else "LoopLife.cfg",
                      what="a loop thread that fails, stops, drains and ends: the owner never waits for ever, an error is reported once")
        exe = conc.build(ctx, "file", "file_driver.cpp", SRC, uv=True)
        sc = []
        for i in range(900 if ctx.thorough else 130):
            sc.append(scenario(ctx.rng, focus).text("f%d" % i, 1200 if ctx.thorough else 250))
        ctx.conform("FileTrace", sc, lambda s: ctx.drive(exe, s, counters=True), classify=classify)
    return f


CHECKS = {p: check(p) for p in ("F01", "F02", "F03", "F04", "F05", "F06", "F08")}
