"""Shared machinery: running TLC, validating traces, replaying generated behaviours, reporting."""
import concurrent.futures, contextlib, io, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Hang(BaseException):
    """One call into the library that does not return."""


class Watch:
    """Raises Hang inside a call into the library that has been running for `limit` seconds."""

    def __init__(self, limit=40):
        self.limit, self.call, self.since = limit, None, 0
        signal.signal(signal.SIGALRM, self.tick)
        signal.setitimer(signal.ITIMER_REAL, 2, 2)

    def tick(self, signum, frame):
        call = None
        while frame is not None:
            if frame.f_code.co_filename.startswith("/repo/neural_graph_composer") and frame.f_code.co_name != "<module>":
                call = frame
            frame = frame.f_back
        if call is None or call is not self.call:
            self.call, self.since, self.wall = call, time.process_time(), time.time()
        elif time.process_time() - self.since > self.limit or time.time() - self.wall > 6 * self.limit:
            where = "%s (%s)" % (call.f_code.co_name, os.path.basename(call.f_code.co_filename))
            self.call = None
            raise Hang(where)

    @staticmethod
    def stop():
        signal.setitimer(signal.ITIMER_REAL, 0)


@contextlib.contextmanager
def quiet():
    """Silence what the library prints (it prints a lot)."""
    with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
        yield


def canon(x):
    """JSON canonical form (tuples -> lists, numpy ints -> int)."""
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if x is None:
        return "None"
    if isinstance(x, int):
        if abs(x) >= 2 ** 31:
            return "big:%d" % x
        return x
    if isinstance(x, float):
        if x == int(x) and abs(x) < 2 ** 31:
            return int(x)
        return "float:%r" % x
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return bool(x)
        if isinstance(x, np.integer):
            return canon(int(x))
        if isinstance(x, np.floating):
            return canon(float(x))
        if isinstance(x, np.ndarray):
            return canon(x.tolist())
    except ImportError:
        pass
    return "obj:%s" % type(x).__name__


def grid(x, unit, tol=1e-6):
    """A number as an exact multiple of 1/unit; a sentinel if it is not one."""
    if isinstance(x, bool) or x is None:
        return -999999
    try:
        v = float(x) * unit
    except (TypeError, ValueError):
        return -999998
    if v != v or abs(v) >= 2 ** 30:
        return -999997
    r = round(v)
    if abs(v - r) > tol * max(1.0, abs(v)) + 1e-9:
        return -999996
    return int(r)


def outcome(f, *a, **k):
    """(value, 'ok') or (None, 'raise') -- with the exception's class name in a third slot."""
    try:
        return f(*a, **k), "ok", ""
    except Exception as ex:  # noqa: the classes raised are part of the observation
        return None, "raise", type(ex).__name__


class Behaviours(list):
    """Generated behaviours (one per transition) and the state graph they span."""

    def __init__(self):
        super().__init__()
        self.lines, self.out, self.steps = [], {}, {}

    def add(self, h, *fp):
        for k, s in enumerate(h):       # behaviours share their steps
            h[k] = self.steps.setdefault(json.dumps(s), s)
        if h:
            self.append(h)
        self.lines.append((h, fp))

    def graph(self):
        """{state: [(command, step, next state)]}; the start state first."""
        reached, names = {}, {}
        for h, fp in self.lines:
            key = tuple(names.setdefault(json.dumps(s["e"]), len(names)) for s in h)
            if h:
                src = reached[key[:-1]]
                self.out.setdefault(src, []).append((json.dumps(h[-1]["e"]), h[-1], fp))
            reached.setdefault(key, fp)
        return self.out

    def walks(self, rng, share, length=60):
        """Random walks, `share` times as many steps as the behaviours have: changes and questions mixed,
        with questions asked earlier asked again."""
        if not self.lines:
            return []
        out = self.out or self.graph()
        start = self.lines[0][1]
        if not any(dst in out for es in out.values() for (_, _, dst) in es):
            return []
        budget, res = share * sum(map(len, self)), []
        seen = {}
        while budget > 0:
            at, h, asked = start, [], set()
            while at in out and len(h) < length:
                es = out[at]
                again = [e for e in es if e[0] in asked and e[2] == at]
                loops = [e for e in es if e[2] == at]
                r = rng.random()
                if again and r < .4:
                    e = rng.choice(again)
                elif loops and r < .6:
                    e = rng.choice(loops)
                else:
                    few = rng.sample(es, min(3, len(es)))
                    e = min(few, key=lambda e: (e[2] not in out, seen.get((at, e[0]), 0)))
                seen[at, e[0]] = seen.get((at, e[0]), 0) + 1
                asked.add(e[0])
                h.append(e[1])
                at = e[2]
            budget -= max(1, len(h))
            res.append(h)
        return res


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.tmp = tempfile.mkdtemp(prefix="ngc-verif-%s-" % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.models, self.viol, self.known = [], [], [], []
        self.opcount = {}
        self.walked = 0
        self.assumptions = []
        self._pending = []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, workers=1, timeout=None, xmx=None, extra=()):
        work = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        cmd = ["java", "-Djava.io.tmpdir=" + work, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Xmx%s" % (xmx or self.n("3g", "8g")), "-Xss64m",
               "-XX:TieredStopAtLevel=%d" % (1 if self.quick else 4),
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
               "-metadir", os.path.join(work, "meta"), "-config", os.path.join(SPEC, cfg)]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        out = os.path.join(work, "out")
        with open(out, "w") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=work)
        return p, out, work

    def _wait(self, p, out, timeout, lines=True):
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise MachineryError("TLC timed out")
        with open(out, errors="replace") as f:
            return rc, f.read() if lines else "".join(l for l in f if not l.startswith('"['))

    @staticmethod
    def _counts(txt):
        m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", txt)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model(self, module, cfg=None, quick_only=False):
        """Model-check the specification itself (started now, collected in finish())."""
        cfg = cfg or module + ".cfg"
        if not self.quick and os.path.exists(os.path.join(SPEC, cfg.replace(".cfg", "_deep.cfg"))):
            cfg = cfg.replace(".cfg", "_deep.cfg")
        p, out, work = self._tlc(module, cfg, workers=self.n(2, 6))
        self._pending.append((module, cfg, p, out))

    def _collect_models(self):
        for module, cfg, p, out in self._pending:
            rc, txt = self._wait(p, out, self.n(600, 3000))
            g, d = self._counts(txt)
            if rc != 0 or "No error has been found" not in txt:
                raise MachineryError("model check of %s/%s failed:\n%s" % (module, cfg, txt[-3000:]))
            self.states += d
            self.transitions += g
            self.models.append(dict(module=module, cfg=cfg, distinct_states=d, states_generated=g))
        self._pending = []

    def generate(self, module, cfg=None, timeout=600):
        """Behaviours of the specification, one per transition of its bounded state graph."""
        cfg = cfg or module + ".cfg"
        if not self.quick and os.path.exists(os.path.join(SPEC, cfg.replace(".cfg", "_deep.cfg"))):
            cfg = cfg.replace(".cfg", "_deep.cfg")
        p, out, work = self._tlc(module, cfg, workers=1)
        rc, txt = self._wait(p, out, self.n(timeout, 3000), lines=False)
        if rc != 0 or "No error has been found" not in txt:
            raise MachineryError("generation by %s failed:\n%s" % (module, txt[-3000:]))
        g, d = self._counts(txt)
        self.states += d
        self.transitions += g
        self.models.append(dict(module=module, cfg=cfg, distinct_states=d, states_generated=g))
        res = Behaviours()
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"['):
                    v = json.loads(json.loads(line))
                    res.add(*v) if len(v) == 3 and isinstance(v[2], int) else res.append(v)
        shutil.rmtree(work, ignore_errors=True)
        return res

    def evaluate(self, module, env_data, cfg=None):
        """Let the specification compute: OUT lines (JSON) printed by the module for INPUT."""
        path = os.path.join(self.tmp, "in-%d.json" % len(os.listdir(self.tmp)))
        with open(path, "w") as f:
            json.dump(env_data, f)
        p, out, work = self._tlc(module, cfg or module + ".cfg", env={"TRACES": path})
        rc, txt = self._wait(p, out, self.n(600, 3000))
        if rc != 0:
            raise MachineryError("evaluation by %s failed:\n%s" % (module, txt[-3000:]))
        return [json.loads(json.loads(l)) for l in txt.splitlines() if l.startswith('"[') or l.startswith('"{')]

    # ------------------------------------------------------------- traces
    def _validate_once(self, module, cfg, traces):
        fd, path = tempfile.mkstemp(prefix="traces-", dir=self.tmp)
        with os.fdopen(fd, "w") as f:
            json.dump(traces, f)
        p, out, work = self._tlc(module, cfg, env={"TRACES": path}, xmx=self.n("3g", "5g"))
        rc, txt = self._wait(p, out, self.n(800, 3000))
        verdicts = {}
        for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', txt):
            verdicts[int(m.group(1)) - 1] = (int(m.group(2)) - 1, m.group(3))
        os.unlink(path)
        return rc, txt, verdicts

    def validate(self, module, traces, cfg=None, what="trace", chunk=4000):
        """Check recorded traces against the specification; every trace gets a verdict."""
        cfg = cfg or module + ".cfg"
        traces = [canon(t) for t in traces if t["ev"]]
        if not traces:
            raise MachineryError("no traces for " + module)
        size = min(chunk, max(400, -(-len(traces) // 4)))
        parts = [traces[k:k + size] for k in range(0, len(traces), size)]
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            for part, done in zip(parts, pool.map(lambda t: self._validate_once(module, cfg, t), parts)):
                self._validated(module, cfg, part, what, *done)

    def _validated(self, module, cfg, traces, what, rc, txt, verdicts):
        if len(verdicts) < len(traces) or "Error:" in txt:
            # A recorded value the specification cannot even evaluate: find the traces that do it.
            verdicts = self._isolate(module, cfg, traces, txt)
        else:
            g, d = self._counts(txt)
            self.states += d
            self.transitions += g
        for i, t in enumerate(traces):
            pos, v = verdicts[i]
            if v == "ok":
                self.traces += 1
                self.events += len(t["ev"])
                for e in t["ev"]:
                    op = str(e.get("op", "?"))
                    self.opcount[op] = self.opcount.get(op, 0) + 1
                if len(self.samples) < 3:
                    s = json.dumps(t)
                    self.samples.append(dict(kind=what, module=module, trace=json.loads(s) if len(s) < 4000 else s[:4000]))
            else:
                self.violation("%s: %s (event %d: %s)" % (module, v, pos, t["ev"][pos].get("op", "?")),
                               dict(module=module, clause=v, event=pos, trace=t), key=t.get("key", ""))

    def _isolate(self, module, cfg, traces, txt):
        res, budget = {}, 40

        def rec(idx):
            nonlocal budget
            budget -= 1
            if budget < 0:
                return
            rc, t, v = self._validate_once(module, cfg, [traces[i] for i in idx])
            if len(v) == len(idx) and "Error:" not in t:
                for k, i in enumerate(idx):
                    res[i] = v[k]
                return
            if len(idx) == 1:
                m = re.search(r"Error:(.*)", t)
                if "TLC" in t and ("Attempted" in t or "evaluat" in t or "In " in t):
                    res[idx[0]] = (0, "the recorded values are outside the specification's domain")
                    self.viol_detail = t[-1500:]
                    return
                raise MachineryError("TLC failed on one trace of %s:\n%s" % (module, t[-3000:]))
            h = len(idx) // 2
            rec(idx[:h])
            rec(idx[h:])
        rec(list(range(len(traces))))
        bad = [i for i in res if res[i][1] != "ok"]
        if not bad:
            raise MachineryError("TLC failed on %s:\n%s" % (module, txt[-3000:]))
        for i in range(len(traces)):
            res.setdefault(i, (0, "ok"))
        return res

    def replay(self, what, behaviours, play, sample=True):
        """Replay generated behaviours: play(commands) must return what the specification expects.

        After one behaviour per transition come random walks over the same state graph."""
        walks = behaviours.walks(self.rng, self.n(1, 4)) if isinstance(behaviours, Behaviours) else []
        self.walked += len(walks)
        for h in list(behaviours) + walks:
            cmds = [s["e"] for s in h]
            want = [canon(s["x"]) for s in h]
            got = [canon(g) for g in play(cmds)]
            self.traces += 1
            self.events += len(cmds)
            for e in cmds:
                op = str(e.get("op", "?"))
                self.opcount[op] = self.opcount.get(op, 0) + 1
            if got != want:
                k = next(i for i in range(len(want)) if i >= len(got) or got[i] != want[i])
                self.violation("%s: step %d %s: specification says %s, code says %s" % (
                    what, k, json.dumps(cmds[k])[:200], json.dumps(want[k])[:300],
                    json.dumps(got[k] if k < len(got) else None)[:300]),
                    dict(commands=cmds, expected=want, observed=got))
        if sample and behaviours:
            self.samples.append(dict(kind="generated behaviour (" + what + ")",
                                     behaviour=behaviours[len(behaviours) // 2]))

    # ----------------------------------------------------------- reporting
    def violation(self, msg, data, key=""):
        for k in known_findings(self.pid):
            if k["match"] and key and k["match"] == key:
                if k not in self.known:
                    self.known.append(k)
                return
        self.viol.append((msg, data))

    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        try:
            self._collect_models()
        except MachineryError:
            if not self.viol:
                raise
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events, random_walks=self.walked,
                                operations=self.opcount,
                                models=self.models, samples=self.samples[:6]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if self.viol:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, (msg, data) in enumerate(self.viol[:3]):
                path = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, what=msg, data=data), f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  " + msg[:600])
            if len(self.viol) > 3:
                print("  (%d violations in all)" % len(self.viol))
            rc = 1
        else:
            print("%s: held; %d states, %d transitions, %d traces validated, %.1fs" % (
                self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc


_KNOWN = None


def known_findings(pid):
    """Lines 'finding: property=<id> key=<key> <text>' of known_findings.txt."""
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    _KNOWN.append(dict(property=m.group(1), match=m.group(2), text=m.group(3)))
    return [k for k in _KNOWN if k["property"] == pid]
