"""Common machinery of the checks: running TLC, recording events of the real code, verdicts, evidence."""
import json, math, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, warnings
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CPUS = max(2, min(8, os.cpu_count() or 2))


class Machinery(Exception):
    """The check itself failed: no verdict."""


# ---------------------------------------------------------------- encoding of observations
def R(x):
    """Exact rational of a number as the specification reads it; the non-numbers by name."""
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (int,)) and not isinstance(x, bool):
        return str(x)
    try:
        f = float(x)
    except Exception:
        return "nan"
    if math.isnan(f):
        return "nan"
    if math.isinf(f):
        return "inf" if f > 0 else "-inf"
    return str(Fraction(f))


def F(s):
    """Fraction of a rational string or int."""
    return Fraction(s)


def V(x):
    """A one-dimensional observation; anything else becomes a vector the specification rejects."""
    import numpy as np
    try:
        a = np.asarray(x)
        if a.ndim != 1 or a.dtype == object and not all(np.isscalar(t) for t in a):
            return ["shape%s" % (tuple(a.shape),)]
        return [R(t) for t in a.tolist()]
    except Exception:
        return ["unreadable"]


def M(x):
    """A matrix observation as a list of rows."""
    import numpy as np
    a = np.asarray(x)
    if a.ndim != 2:
        return [["shape%s" % (tuple(a.shape),)]]
    return [[R(t) for t in r] for r in a.tolist()]


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def call(fn, *a, limit=30, **k):
    """(value, "") or (None, exception name) of a call into the code under test."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(*a, **k), ""
    except Timeout:
        return None, "Timeout"
    except Exception as e:
        return None, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------- worker pool
def _guard(args):
    fn, batch = args
    warnings.showwarning = lambda *a, **k: None
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.close(devnull)
    out = []
    for i, case in batch:
        try:
            out.append((i, fn(case), None))
        except Exception:
            out.append((i, None, traceback.format_exc()))
    return out


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = self.transitions = self.events = self.cases = self.traces = 0
        self.nontrivial = set()
        self.samples, self.parts, self.viol, self.known = [], {}, [], []
        self.notes = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.findings = [f for f in json.load(open(kf))["findings"] if f["property"] == prop] if os.path.exists(kf) else []
        self.cp = self._java()

    @property
    def quick(self):
        return self.tier != "thorough"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def _java(self):
        src = os.path.join(VERIF, "java")
        out = os.path.join(VERIF, "build")
        srcs = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")]
        want = [os.path.join(out, os.path.basename(f)[:-5] + ".class") for f in srcs]
        if not all(os.path.exists(w) and os.path.getmtime(w) >= os.path.getmtime(s) for s, w in zip(srcs, want)):
            out = os.path.join(self.scratch, "build")
            os.makedirs(out, exist_ok=True)
            subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", out] + srcs, check=True)
        return ":".join([out, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, emit=None, env=None, workers=1, heap="2g", timeout=800, args=(), tag=None):
        d = tempfile.mkdtemp(dir=self.scratch)
        cfgf = os.path.join(d, module + ".cfg")
        open(cfgf, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + d]
        if emit:
            cmd.append("-Dverif.emit=" + emit)
        cmd += ["-cp", self.cp, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d, "-workers", str(workers),
                "-config", cfgf, *args, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timeout on " + module)
        out = p.stdout
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        if m is None:
            m = re.search(r"The number of states generated: ([\d,]+)()", out)
        gen = int(m.group(1).replace(",", "")) if m else 0
        dis = int((m.group(2) or m.group(1)).replace(",", "")) if m else 0
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, out, gen, dis

    def mc(self, module, constants=None, invariants=(), properties=(), constraint=None, emit=False, spec=None, args=(),
           workers=CPUS, heap="8g", timeout=800, view=None, refuted=None):
        """Model-check a design module exhaustively; the design must satisfy its own invariants.
        Returns the behaviours emitted (parsed JSON lines).  With refuted (the name of an invariant) the model is a faulty
        variant of the design, which TLC has to refute: the invariant is not vacuous."""
        cfg = ("SPECIFICATION %s\n" % spec) if spec else "INIT Init\nNEXT Next\n"
        for k, v in (constants or {}).items():
            cfg += "CONSTANT %s %s\n" % (k, v if v.startswith("<-") else "= " + v)
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        for i in properties:
            cfg += "PROPERTY %s\n" % i
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        if view:
            cfg += "VIEW %s\n" % view
        cfg += "CHECK_DEADLOCK FALSE\n"
        ef = os.path.join(self.scratch, "emit_%s_%d" % (module, len(os.listdir(self.scratch)))) if emit else None
        t1 = time.time()
        rc, out, gen, dis = self.tlc(module, cfg, emit=ef, workers=workers, heap=heap, timeout=timeout, args=args)
        if refuted:
            if "Invariant %s is violated" % refuted not in out:
                raise Machinery("faulty variant of %s not refuted by TLC:\n%s" % (module, out[-6000:]))
            p = self.parts.setdefault("refuted:" + module, {"variants": 0, "states": 0})
            p["variants"] += 1
            p["states"] += dis
            return []
        if rc != 0 or "No error has been found" not in out and "-simulate" not in args:
            raise Machinery("design model %s rejected by TLC:\n%s" % (module, out[-6000:]))
        self.states += dis
        self.transitions += gen
        p = self.parts.setdefault("model:" + module, {"states": 0, "transitions": 0, "behaviours": 0})
        p["states"] += dis
        p["transitions"] += gen
        res = []
        if ef and os.path.exists(ef):
            seen = set()
            for line in open(ef):
                if line not in seen:
                    seen.add(line)
                    res.append(json.loads(line))
        p["behaviours"] += len(res)
        p["wall_s"] = round(p.get("wall_s", 0) + time.time() - t1, 1)
        return res

    # ------------------------------------------------------------ recording
    def record(self, fn, cases, stall=240):
        """Run fn(case) -> [event, ...] on all cases in parallel; events keep case order."""
        t1 = time.time()
        res = [None] * len(cases)
        done = [False] * len(cases)
        if not cases:
            return []
        ctx = mp.get_context("fork")
        chunk = max(1, min(64, len(cases) // (CPUS * 8)))
        with ctx.Pool(CPUS, maxtasksperchild=None) as pool:
            batches = [[(i, cases[i]) for i in range(j, min(j + chunk, len(cases)))] for j in range(0, len(cases), chunk)]
            it = pool.imap_unordered(_guard, [(fn, b) for b in batches])
            n = 0
            while n < len(cases):
                try:
                    got = it.next(timeout=stall)
                except mp.TimeoutError:
                    pool.terminate()
                    break
                for i, ev, err in got:
                    if err and err.strip().splitlines()[-1].split(":")[0] in ("NameError", "ImportError", "ModuleNotFoundError", "MemoryError", "SyntaxError", "Machinery"):
                        raise Machinery("driver failed on case %r:\n%s" % (cases[i], err))
                    # anything else: what the code returned or did cannot be recorded as an observation of the specification
                    res[i] = ev if not err else [{"ev": "Unrecordable", "exc": "Hang", "case": i, "error": err[-900:]}]
                    done[i] = True
                    n += 1
        for i, ok in enumerate(done):
            if not ok:
                res[i] = [{"ev": "Hang", "exc": "Hang", "case": i}]
        self.cases += len(cases)
        self.parts.setdefault("record", {"cases": 0, "wall_s": 0})
        self.parts["record"]["cases"] += len(cases)
        self.parts["record"]["wall_s"] = round(self.parts["record"]["wall_s"] + time.time() - t1, 1)
        return res

    # ------------------------------------------------------------ validation
    def validate(self, module, histories, sub=None, label=None, shards=None, timeout=800, heap="3g"):
        """Validate recorded histories (lists of events) against the trace specification `module`.
        sub: substitutions for the constants of TraceBase."""
        sub = sub or {"Start": "<- TStart", "Failing": "<- TFailing", "After": "<- TAfter"}
        label = label or module
        histories = [h for h in histories if h]
        hang = [h for h in histories if any(e.get("exc") == "Hang" for e in h)]
        for h in hang:
            self._report(label, h[-1], ["answers"], h)
        histories = [h for h in histories if not any(e.get("exc") == "Hang" for e in h)]
        tot = sum(len(h) for h in histories)
        if tot == 0:
            return
        k = shards or max(1, min(CPUS, tot // 40 + 1))
        groups = [[] for _ in range(k)]
        weight = [0] * k
        for h in sorted(histories, key=lambda h: -sum(len(json.dumps(e)) for e in h)):
            j = weight.index(min(weight))
            groups[j].append(h)
            weight[j] += sum(len(json.dumps(e)) for e in h)
        cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join("CONSTANT %s %s\n" % kv for kv in sub.items())

        def one(j):
            evs = [e for h in groups[j] for e in h]
            return self._run_trace(module, cfg, evs, "%s_%d" % (label, j), heap, timeout)

        t1 = time.time()
        with ThreadPoolExecutor(k) as ex:
            outs = list(ex.map(one, [j for j in range(k) if groups[j]]))
        bad = 0
        p = self.parts.setdefault("trace:" + label, {"histories": 0, "events": 0, "rejected": 0})
        live = [g for g in groups if g]
        for g, (fails, gen, dis) in zip(live, outs):
            self.states += dis
            self.transitions += gen
            evs, owner = [], []
            for h in g:
                evs += h
                owner += [h] * len(h)
            for i, cl in fails:
                bad += 1
                self._report(label, evs[i - 1], cl, owner[i - 1])
        p["histories"] += len(histories)
        p["events"] += tot
        p["rejected"] += bad
        p["wall_s"] = round(p.get("wall_s", 0) + time.time() - t1, 1)
        self.events += tot
        self.traces += len(histories)
        for h in histories:
            self.nontrivial.add(hash(json.dumps(h, sort_keys=True)))
        for h in (histories[:1] + histories[len(histories) // 2:len(histories) // 2 + 1]):
            if len(self.samples) < 6:
                self.samples.append({"spec": label, "history": _short(h)})

    def _run_trace(self, module, cfg, evs, tag, heap, timeout):
        fails = []
        base = 0
        gen = dis = 0
        while True:
            tf = os.path.join(self.scratch, "trace_%s_%d.ndjson" % (tag, base))
            ef = tf + ".out"
            with open(tf, "w") as f:
                for e in evs[base:]:
                    f.write(json.dumps(e) + "\n")
            rc, out, g, d = self.tlc(module, cfg, emit=ef, env={"TRACE": tf}, heap=heap, timeout=timeout)
            if os.path.exists(ef):
                for line in open(ef):
                    r = json.loads(line)
                    if "i" not in r:
                        raise Machinery("unexpected emission %s" % line[:300])
                    fails.append((base + r["i"], sorted(r["f"])))
                os.unlink(ef)
            os.unlink(tf)
            gen += g
            dis += d
            if rc == 0 and d == len(evs) - base + 1:
                return fails, gen, dis
            # TLC could not evaluate an event: an observation outside the vocabulary of the specification
            ls = re.findall(r"/?\\? ?l = (\d+)", out)
            if "Error:" not in out or not ls or "OutOfMemory" in out or "StackOverflow" in out or "Parsing or semantic" in out:
                raise Machinery("trace validation %s failed (rc %d):\n%s" % (module, rc, out[-5000:]))
            i = int(ls[-1])
            if not evs[base + i - 1].get("exc_ok", True):
                raise Machinery(out[-5000:])
            msg = out[out.find("Error:"):][:600]
            fails.append((base + i, ["readable-observation"]))
            self.notes.append("event not evaluable: %s | %s" % (json.dumps(evs[base + i - 1])[:400], msg))
            # continue after the whole history is not possible without its state: restart at the next history
            nxt = base + i
            while nxt < len(evs) and not evs[nxt].get("new", True):
                nxt += 1
            base = nxt
            if base >= len(evs) or len(fails) > 50:
                return fails, gen, dis

    def expect(self, label, cond, what, detail=None):
        """A clause evaluated by the harness itself (bookkeeping only)."""
        if not cond:
            self._report(label, {"detail": detail}, [what], [{"detail": detail}])

    def _report(self, label, ev, clauses, history):
        for f in self.findings:
            m = f["match"]
            if m.get("spec", label) == label and set(clauses) <= set(m["clauses"]) and \
               all(ev.get(k) == v for k, v in m.get("event", {}).items()):
                self.known.append(f)
                return
        self.viol.append({"spec": label, "clauses": clauses, "event": ev, "history": history})

    # ------------------------------------------------------------ end
    def finish(self, level="model_checking", assumptions=(), exhaustive=None, extra=None):
        ed = os.path.join(VERIF, "evidence")
        os.makedirs(ed, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "evaluations": self.events, "distinct_nontrivial": len(self.nontrivial),
               "rule": "a history is the recorded behaviour of the real code on one generated case (parts lists where the "
                       "cases come from: behaviours emitted by TLC from the design models, and seeded random ones); "
                       "distinct by their full content",
               "parts": self.parts, "samples": self.samples}
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": level, "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        with open(os.path.join(ed, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for f in self.known:
            if f["id"] not in seen:
                seen.add(f["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        rc = 0
        if self.viol:
            rd = os.path.join(ed, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "violations": self.viol[:int(os.environ.get("VERIF_KEEP", 20))],
                           "notes": self.notes[:10]}, f, indent=1)
            by = {}
            for v in self.viol:
                by.setdefault((v["spec"], tuple(v["clauses"])), []).append(v)
            for (s, c), vs in by.items():
                print("  %s: clauses %s fail on %d event(s), e.g. %s" % (s, ", ".join(c), len(vs), json.dumps(vs[0]["event"])[:600]))
            for n in self.notes[:3]:
                print("  note:", n)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            rc = 1
        else:
            print("OK %s: %d states, %d histories, %d events in %.1fs" % (self.prop, self.states, self.traces, self.events, time.time() - self.t0))
        sys.stdout.flush()
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc


def _short(h):
    s = json.dumps(h)
    return h if len(s) < 3000 else s[:3000] + "..."
