"""Runner shared by every check: builds the drivers from /repo's current tree, lets TLC
check the design, executes scripts on the real code, and lets TLC decide whether each
recorded trace is a behaviour of the specification."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORE = ["src/mg/core/bitstream.cpp", "src/mg/core/thread.cpp", "src/mg/core/uvbase.cpp",
        "src/mg/core/file.cpp", "src/mg/core/nx/util.cpp", "src/mg/core/nx/ctime.cpp"]
NCPU = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vt-%s-" % prop, dir="/tmp")
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.states = 0          # states TLC generated
        self.distinct = 0
        self.transitions = 0     # transitions checked by TLC in the design models
        self.traces = 0          # traces validated against the implementation
        self.events = 0
        self.schedules = 0       # executions under the deterministic scheduler
        self.samples = []
        self.models = []
        self.notes = []
        self.violations = []     # (what, replay)
        self.known = []          # (what)
        self._bin = {}

    thorough = property(lambda self: self.tier == "thorough")

    def path(self, name):
        return os.path.join(self.work, name)

    # ---------------------------------------------------------------- building
    def build(self, name, sources, flags=(), libs=("-luv", "-lpthread"), asan=True, opt="-O1", core=None, env=None, cxx="g++-10", link=()):
        """Compiles harness sources plus repository sources; returns the executable."""
        if name in self._bin:
            return self._bin[name]
        d = self.path("b_" + name)
        os.makedirs(d, exist_ok=True)
        srcs = [s if os.path.isabs(s) else os.path.join(HARN, s) for s in sources]
        srcs += [os.path.join(REPO, s) for s in (CORE if core is None else core)]
        base = [cxx, "-std=c++11", "-g", opt, "-w", "-I" + REPO + "/src", "-I" + HARN] + list(flags)
        if asan:
            base += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        objs = []

        def cc(i_s):
            i, s = i_s
            o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(s)))
            extra = []
            if "|" in s:
                s, x = s.split("|", 1)
                extra = x.split()
                o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(s)))
            r = subprocess.run(base + extra + ["-c", s, "-o", o], capture_output=True, text=True)
            return o, r
        with ThreadPoolExecutor(NCPU) as ex:
            for o, r in ex.map(cc, enumerate(srcs)):
                if r.returncode:
                    raise MachineryError("compilation failed:\n" + r.stderr[-3000:])
                objs.append(o)
        exe = os.path.join(d, name)
        r = subprocess.run(base + objs + list(link) + list(libs) + ["-o", exe], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("link failed:\n" + r.stderr[-3000:])
        self._bin[name] = exe
        return exe

    # ---------------------------------------------------------------- running
    def drive(self, exe, scripts, args=(), timeout=600, par=None, tag="s", env=None, counters=False):
        """scripts: list of script texts (without T/E lines' id uniqueness concerns).
        Returns the traces (dicts), one per script, in order."""
        par = par or (min(NCPU, len(scripts)) if counters else min(NCPU, max(1, len(scripts) // 40)))
        chunks = [scripts[i::par] for i in range(par)]
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0"
        e["LANG"] = "C.UTF-8"
        e.update(env or {})

        def one(k):
            fi, fo = self.path("%s_%d.in" % (tag, k)), self.path("%s_%d.out" % (tag, k))
            tmp = self.path("%s_%d.tmp" % (tag, k))
            os.makedirs(tmp, exist_ok=True)
            with open(fi, "w") as f:
                for s in chunks[k]:
                    f.write(s)
            try:
                r = subprocess.run([exe, fi, fo, tmp] + list(args), capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
            except subprocess.TimeoutExpired:
                raise MachineryError("driver %s did not finish in %ds" % (os.path.basename(exe), timeout))
            if r.returncode:
                raise MachineryError("driver %s: exit %d\n%s" % (os.path.basename(exe), r.returncode, r.stderr[-2000:]))
            out = []
            with open(fo) as f:
                for line in f:
                    out.append(json.loads(line))
            shutil.rmtree(tmp, ignore_errors=True)
            if counters:
                with open(fo + ".n") as f:
                    self.schedules += int(f.read())
                os.unlink(fo + ".n")
            for p in (fi, fo):
                os.unlink(p)
            return out
        res = []
        with ThreadPoolExecutor(par) as ex:
            for x in ex.map(one, range(par)):
                res.extend(x)
        return res

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers="1", extra=(), timeout=800, heap="3g", tag=None):
        tag = tag or "%s_%s" % (module, hashlib.md5((cfg + str(env)).encode()).hexdigest()[:8])
        md = self.path("tlc_" + tag)
        os.makedirs(md, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        e["LANG"] = "C.UTF-8"
        cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPECS, cfg)
        cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-DTLA-Library=" + SPECS, "-cp", CP, "tlc2.TLC",
               "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfgp] + list(extra) + [os.path.join(SPECS, module + ".tla")]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=md, errors="replace")
            out, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as x:
            shutil.rmtree(md, ignore_errors=True)
            raise MachineryError("TLC %s did not finish in %ds" % (module, timeout))
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct", out)
        gen = int(m[-1][0].replace(",", "")) if m else 0
        dis = int(m[-1][1].replace(",", "")) if m else 0
        shutil.rmtree(md, ignore_errors=True)
        return rc, out, gen, dis

    def model(self, module, cfg, workers=None, timeout=800, extra=(), env=None, heap="6g", what=""):
        """Exhaustive (or simulated) check of a design model: a failure here is an error of the
        machinery, because the model does not depend on /repo."""
        t = time.time()
        rc, out, gen, dis = self.tlc(module, cfg, workers=workers or str(NCPU), timeout=timeout, extra=extra, env=env, heap=heap)
        if rc != 0:
            raise MachineryError("model %s/%s failed (%d):\n%s" % (module, cfg, rc, out[-4000:]))
        self.states += gen
        self.distinct += dis
        self.transitions += gen
        self.models.append({"module": module, "config": os.path.basename(cfg), "generated": gen, "distinct": dis,
                            "seconds": round(time.time() - t, 1), "what": what})
        return out

    def scripts_from(self, module, cfg, extra=(), timeout=600, env=None, workers="1", marker="SCRIPT"):
        """Behaviours generated by TLC: the module prints <<marker, json>>; returns decoded values."""
        rc, out, gen, dis = self.tlc(module, cfg, timeout=timeout, extra=extra, env=env, workers=workers)
        res = []
        for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % marker, out):
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
        if not res or (rc != 0):
            raise MachineryError("no behaviours from %s/%s (%d):\n%s" % (module, cfg, rc, out[-3000:]))
        self.states += gen
        self.distinct += dis
        self.models.append({"module": module, "config": os.path.basename(cfg), "generated": gen, "distinct": dis, "what": "behaviours generated for replay: %d" % len(res)})
        return res

    def validate_raw(self, module, traces, cfg="Trace.cfg", par=None, timeout=800, tag="v", heap="3g"):
        """-> list of (index, event number) of the traces TLC rejects."""
        if not traces:
            return []
        par = par or min(NCPU, max(1, len(traces) // 50))
        idx = [list(range(i, len(traces), par)) for i in range(par)]

        def check(part, name):
            p = self.path(name + ".ndjson")
            with open(p, "w") as f:
                for i in part:
                    f.write(json.dumps(traces[i]) + "\n")
            rc, out, gen, dis = self.tlc(module, cfg, env={"TRACE": p}, timeout=timeout, tag=name, heap=heap)
            os.unlink(p)
            rej = [(part[int(a) - 1], int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)]
            if rc == 0 and "No error has been found" in out:
                return rej, gen, dis
            if "OutOfMemory" in out or "Parsing" in out.split("Starting")[0] and "rror" in out.split("Starting")[0]:
                raise MachineryError("trace validation %s failed (%d):\n%s" % (module, rc, out[-4000:]))
            # a recorded value the specification cannot even compare: find the trace it is in
            if len(part) == 1:
                self.notes.append("evaluation error in %s: %s" % (traces[part[0]]["id"], " ".join(out[out.find("Error:"):].split())[:700]))
                return [(part[0], 0)], gen, dis
            h = len(part) // 2
            r1, g1, d1 = check(part[:h], name)
            if len([1 for _, n in r1 if n == 0]) >= 2:
                return r1, g1, d1
            r2, g2, d2 = check(part[h:], name)
            return r1 + r2, g1 + g2, d1 + d2

        def one(k):
            return check(idx[k], "%s_%d" % (tag, k))
        rej = []
        with ThreadPoolExecutor(par) as ex:
            for r, gen, dis in ex.map(one, range(par)):
                rej += r
                self.states += gen
                self.distinct += dis
        return sorted(rej)

    def conform(self, module, scripts, runner, cfg="Trace.cfg", describe=None, par=None, classify=None, maxrep=5, timeout=800):
        """Runs scripts on the implementation, validates the traces; a rejection counts only if a
        second execution of the same script is rejected too."""
        traces = runner(scripts)
        if len(traces) == 0:
            raise MachineryError("no traces")
        byid = {s.split(None, 2)[1]: s for s in scripts}
        rej = self.validate_raw(module, traces, cfg=cfg, par=par, timeout=timeout)
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in traces)
        if len(self.samples) < 12:
            for t in traces[:: max(1, len(traces) // 3)][:3]:
                self.samples.append(short(t))
        if not rej:
            return traces
        # once more
        base = lambda i: i.split("#")[0]
        again = list(dict.fromkeys(base(traces[i]["id"]) for i, _ in rej[:60]))
        want = set(traces[i]["id"] for i, _ in rej[:60])
        t2 = [t for t in runner([byid[i] for i in again]) if t["id"] in want]
        rej2 = {t2[i]["id"]: (t2[i], n) for i, n in self.validate_raw(module, t2, cfg=cfg, tag="w")}
        seen = {}
        for i, n in rej[:60]:
            tr = traces[i]
            if tr["id"] not in rej2:
                self.notes.append("rejection of %s did not repeat" % tr["id"])
                continue
            ev = tr["ev"][n - 1] if 0 < n <= len(tr["ev"]) else {"op": "incomplete"}
            self.reject(module, tr, n, ev, byid[base(tr["id"])], classify, seen, maxrep)
        return traces

    def reject(self, module, tr, n, ev, script, classify, seen, maxrep=5):
        key = classify(tr, n, ev) if classify else ev.get("op", "?")
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 1 or len(self.violations) >= maxrep:
            return
        k = known_match(self.prop, key)
        if k:
            if k not in self.known:
                self.known.append(k)
            return
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (re.sub(r"\W", "_", str(tr["id"]))[:40], len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "module": module, "rejected_event": n, "event": ev, "trace": tr, "script": script, "key": key}, f, indent=1)
        self.violations.append(("%s: event %d %s of trace %s is not a step of the specification" % (module, n, json.dumps(ev)[:300], tr["id"]), p))

    # ---------------------------------------------------------------- finishing
    def finish(self, level="model_checking", extra=None):
        ev = {"property": self.prop, "tier": self.tier, "seed": int(self.seed), "level": level,
              "coverage": {"states": self.distinct, "transitions": self.states, "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:12] or ["none"], "events_validated": self.events, "schedules": self.schedules, "models": self.models, "notes": self.notes[:20]},
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations),
              "violation_list": [{"what": w, "replay": r} for w, r in self.violations]}
        ev["coverage"].update(extra or {})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for w, r in self.violations:
            print(w)
        for n in self.notes[:5] if self.violations else []:
            print("note:", n)
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            return 1
        print("%s %s: ok, %d states, %d traces, %d events, %.1fs" % (self.prop, self.tier, self.distinct, self.traces, self.events, time.time() - self.t0))
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def short(t):
    s = json.dumps(t)
    return s if len(s) < 700 else s[:700] + "..."


_known = None


def known_match(prop, key):
    global _known
    if _known is None:
        p = os.path.join(VERIF, "known_findings.json")
        _known = json.load(open(p)) if os.path.exists(p) else {"findings": []}
    for f in _known["findings"]:
        if f.get("property") == prop and f.get("status", "known") == "known" and f.get("match") == key:
            return f["what"]
    return None


def script(id_, head, ops):
    return "T %s %s\n%s\nE\n" % (id_, head, "\n".join(ops))


def main(registry):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.prop not in registry:
        print("unknown property", a.prop)
        return 2
    ctx = Ctx(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed)
    try:
        registry[a.prop](ctx)
        return ctx.finish()
    except MachineryError as x:
        if ctx.violations:
            return ctx.finish()
        print("ERROR:", x)
        return 3
    finally:
        if not a.keep:
            ctx.cleanup()
