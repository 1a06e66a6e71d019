"""C50-C52: the dataset of graphs (spec/Dataset.tla)."""
import os, random, resource, shutil, signal
import numpy as np
import torch
from .lib import grid, outcome, quiet
from .notes import num
from .graphs import GraphDriver, ambiguous, repeated, rtrack, rows
from .smf import smf
from .training import quietly
from neural_graph_composer.midi_dataset import MidiDataset

RATIOS = [(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 8), (5, 8), (7, 10), (15, 100), (3, 10), (29, 100)]


def smfile(tracks):
    """50 ticks a quarter at 120 a minute: a tick is 1/100 s"""
    out, c = [], 0
    for k, t in enumerate(tracks):
        ch = 9 if t["drum"] else [0, 1, 2, 3, 4, 5][k]
        ev = []
        for i, n in enumerate(t["notes"]):
            ev.append((n["t"], 0, i, dict(op="on", c=ch, p=n["p"], v=n["v"], t=n["t"])))
            ev.append((n["t"] + 11, 1, i, dict(op="off", c=ch, p=n["p"], w=False, t=n["t"] + 11)))
        ev.sort(key=lambda z: z[:3])
        l = [z[3] for z in ev]
        l.append(dict(op="end", t=(l[-1]["t"] if l else 0) + 5))
        out.append(l)
    return smf(50, out)


def rfile(rng):
    """A piece as a file can hold it: audible notes; tracks without notes vanish in reading."""
    tracks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = rtrack(rng, notes=7) if rng.random() < .97 else repeated(rng)
        if ambiguous(t["notes"]):
            continue
        t["notes"] = sorted((dict(n, v=max(1, n["v"]), d=False) for n in t["notes"]), key=lambda n: n["t"])
        if t["notes"]:
            tracks.append(t)
    return tracks


def marking(d):
    """A pre-transform: sees the graph with its masks, once."""
    m = getattr(d, "train_mask", None)
    t = int(d.mark[0, 0]) if hasattr(d, "mark") else 0
    d.mark = torch.tensor([[t + 1, d.x.size(0), 0 if m is None else int(m.sum())]])
    return d


def looking(d):
    """A transform: sees the graph whenever it is asked for, as it was stored."""
    t = int(d.seen[0, 0]) if hasattr(d, "seen") else 0
    d.seen = torch.tensor([[t + 1, d.x.size(0)]])
    return d


def atleast(k):
    return lambda d: d.x.size(0) >= k


class DatasetDriver:
    def __init__(self, tmp, rng):
        self.k = len(os.listdir(tmp))
        self.dir = os.path.join(tmp, "ds%d" % self.k)
        self.src = os.path.join(self.dir, "src")
        self.root = os.path.join(self.dir, "root")
        os.makedirs(self.src)
        self.tok, self.rng = {}, rng
        self.opts = dict(filter=rng.random() < .1, split=rng.random() < .85, remove=rng.random() < .6, rel=rng.choice([0, 0, 1, 2]))
        self.feat = rng.choice([4, 7, 12, 12])
        while True:
            self.files = [rfile(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
            if rng.random() < .15:
                self.files[0] = [dict(drum=True, notes=[dict(t=0, p=40, v=90, d=False), dict(t=50, p=41, v=90, d=False)])]
            # at least one graph, or there is no dataset
            if any(not t["drum"] and len(t["notes"]) > 1 and len({n["p"] for n in t["notes"]}) > 0 for f in self.files for t in f) and all(self.files):
                break
        self.opts["filter"] = False if not any(self._two(t) for f in self.files for t in f) else self.opts["filter"]
        self.names = []
        names = rng.sample(["f0.mid", "f1.mid", "a.mid", "Z.mid", "10.mid", "9.mid", "f 2.mid"], len(self.files))
        same = self.opts["rel"] != 2 and rng.random() < .3      # the same name in several folders
        for i, f in enumerate(self.files):
            name = names[i]
            if same:
                name = os.path.join("d%d" % i, rng.choice(["a.mid", "a.mid", "1_a.mid"]))
                os.makedirs(os.path.join(self.src, "d%d" % i))
            open(os.path.join(self.src, name), "wb").write(smfile(f))
            self.names.append(name)

        self.opts.update(keep=0, pre=int(rng.random() < .3), tf=int(rng.random() < .3))
        if rng.random() < .35:
            self.opts["keep"] = self.bound()

    def bound(self):
        """A number of nodes that some graph of either collection reaches and some do not (0: none)."""
        here, self.root, rel = self.root, os.path.join(self.dir, "probe"), self.opts["rel"]
        self.opts["rel"] = 0
        e = dict(vel=False, feat=self.feat, filter=self.opts["filter"], split=False, tr=[1, 2], va=[1, 4], remove=True)

        def sizes(mode):
            d = MidiDataset(**self.args(dict(e, mode=mode)))
            return [d[i].x.size(0) for i in range(len(d))]
        s, res, _ = outcome(lambda: (sizes("per"), sizes("whole")))
        shutil.rmtree(self.root, ignore_errors=True)
        self.root, self.opts["rel"] = here, rel
        if res != "ok":
            return 0
        ks = [k for k in range(2, 1 + min(max(s[0]), max(s[1]))) if k > min(s[0] + s[1])]
        return self.rng.choice(ks) if ks else 0

    @staticmethod
    def _two(t):
        ts = [n["t"] for n in t["notes"]]
        return not t["drum"] and len(ts) != len(set(ts))

    def ratios(self):
        while True:
            a, b = self.rng.choice(RATIOS), self.rng.choice(RATIOS)
            if a[0] / a[1] + b[0] / b[1] <= 1:
                return list(a), list(b)

    def t(self, h):
        return self.tok.setdefault(h, len(self.tok) + 1) if isinstance(h, int) else -9

    def args(self, e):
        files = [os.path.join(self.src, n) for n in self.names]
        if self.opts["rel"] == 1:
            files = [os.path.join("src", n) for n in self.names]
        if self.opts["rel"] == 2:
            files = list(self.names)
        o = self.opts
        return dict(root=self.root, midi_files=files, pre_filter=atleast(o["keep"]) if o["keep"] else None,
                    pre_transform=marking if o["pre"] else None, transform=looking if o["tf"] else None, default_midi_loc=self.src, per_instrument_graph=e["mode"] == "per",
                    include_velocity=e["vel"], feature_vec_size=e["feat"], filter_single_notes=e["filter"], do_split_mask=e["split"],
                    train_ratio=e["tr"][0] / e["tr"][1], val_ratio=e["va"][0] / e["va"][1], remove_label=e["remove"])

    def listing(self):
        return sorted((os.path.join(d, f), os.path.getsize(os.path.join(d, f)), os.stat(os.path.join(d, f)).st_mtime_ns)
                      for d, _, fs in os.walk(self.root) for f in fs) + sorted(d for d, _, _ in os.walk(self.root))

    def do(self, e):
        cwd = os.getcwd()
        os.chdir(self.src if self.opts["rel"] == 2 else self.dir)
        try:
            return getattr(self, e["op"])(e)
        finally:
            os.chdir(cwd)

    def spoil(self, e):
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                if f.endswith(".mid"):
                    open(os.path.join(d, f), "wb").write(b"no music here")
        return {}

    def refuse(self, e):
        before = self.listing()
        a = self.args(dict(mode="per", vel=False, feat=e["feat"], filter=False, split=True, tr=[1, 2], va=[1, 4], remove=True))
        a.update(dict(ratio=dict(train_ratio=1.5), sum=dict(train_ratio=.75, val_ratio=.5), neg=dict(val_ratio=-.25), feat=dict(feature_vec_size=0),
                      type=dict(train_ratio="x"), flag=dict(include_velocity=1), files=dict(midi_files=[3]), nolist=dict(midi_files="f0.mid"), wide=dict(feature_vec_size=129),
                      buckets=dict(velocity_num_buckets=0), tolerance=dict(tolerance="x"), transform=dict(transform=3), pre=dict(pre_transform=3), keep=dict(pre_filter=3),
                      mode=dict(per_instrument_graph=1), single=dict(filter_single_notes=None), vtype=dict(val_ratio="x"), loc=dict(default_midi_loc=self.dir + "/nowhere"))[e["how"]])
        _, res, _ = outcome(MidiDataset, **a)
        return dict(res=res, wrote=self.listing() != before)

    def die(self, e):
        """The process dies while it writes the first, second, ... collection, or copies a file, after e.at bytes (-1: all of them)."""
        a = self.args(e)

        def dying(f, k):
            def g(*args, **kw):
                dying.calls[f] = dying.calls.get(f, 0) + 1
                if dying.calls[f] != k:
                    return f(*args, **kw)
                if e["at"] >= 0:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (e["at"], e["at"]))
                f(*args, **kw)
                os.kill(os.getpid(), signal.SIGKILL)
            return g
        dying.calls = {}

        def run():
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if e["during"] == "copy":
                for n in ("copy", "copyfile", "copy2", "copyfileobj"):
                    setattr(shutil, n, dying(getattr(shutil, n), e["which"]))
            else:
                torch.save = dying(torch.save, ["first", "second", "third"].index(e["during"]) + 1)
            with quiet():
                MidiDataset(**a)
        quietly(run)
        return {}

    def one(self, d):
        names = [self.t(h) for h in d.node_hash]
        e, w = d.edge_index.tolist(), d.edge_attr.view(-1).tolist()
        n = len(names)
        ok = all(0 <= i < n for i in e[0] + e[1]) and len(w) == len(e[0])

        def at(i):
            return names[i] if 0 <= i < n else -8

        def mask(k):
            m = getattr(d, k, None)
            return [] if m is None else [int(b) for b in m.tolist()]
        lab = getattr(d, "label", None)
        return dict(nodes=[dict(id=h, nh=h, x=rows(x)) for h, x in zip(names, d.x)] if len(d.x) == n else [],
                    edges=[[at(u), at(v), grid(z, 1)] for u, v, z in zip(e[0], e[1], w)], ok=ok, y=[num(v) for v in d.y.tolist()],
                    mark=[num(v) for v in getattr(d, "mark", torch.tensor([])).flatten().tolist()],
                    seen=[num(v) for v in getattr(d, "seen", torch.tensor([])).flatten().tolist()],
                    tr=mask("train_mask"), va=mask("val_mask"), te=mask("test_mask"), label=[-1] if lab is None else [num(v) for v in lab])

    def open(self, e):
        a = self.args(e)
        given = list(a["midi_files"])
        x = dict(graphs=[], caller=True, total=-1, stats=[])
        ds, x["res"], x["err"] = outcome(MidiDataset, **a)
        x["caller"] = a["midi_files"] == given
        if x["res"] == "ok":
            x["graphs"] = [self.one((ds[i], ds[i])[1]) for i in range(len(ds))]
            t = self.t
            for m in (ds.notes_to_hash, ds.hash_to_notes, ds.hash_to_index, ds.index_to_hash):
                m.clear()                       # what is handed out is the caller's own
            x["maps"] = dict(n2h=[[sorted(p), t(h)] for p, h in ds.notes_to_hash.items()], h2n=[[t(h), sorted(p)] for h, p in ds.hash_to_notes.items()],
                             h2i=[[t(h), num(i)] for h, i in ds.hash_to_index.items()], i2h=[[num(i), t(h)] for i, h in ds.index_to_hash.items()])
            x["total"] = num(ds.total_num_classes)
            st, r, _ = outcome(ds.compute_statistics)
            x["stats"] = [num(st[k]) for k in ("num_nodes", "num_edges", "num_labels")] if r == "ok" else ["raise"]
        return x


def history(run, plan, rng):
    d, ev = DatasetDriver(run.tmp, rng), []
    if any(e["op"] == "die" and e["during"] == "copy" for e in plan):
        d.opts["rel"] = 2
    np.random.seed(rng.randrange(2 ** 31))
    for e in plan:
        e = dict(e)
        if e["op"] in ("open", "die"):
            tr, va = d.ratios()
            e.update(keep=d.opts["keep"], pre=d.opts["pre"], tf=d.opts["tf"], feat=d.feat, filter=d.opts["filter"], split=d.opts["split"], remove=d.opts["remove"], tr=tr, va=va, files=d.files)
        if e["op"] == "die":
            e.update(at=rng.choice([-1, -1, 0, 1, 40, 300, 2000, 5000]), which=rng.randrange(1, len(d.files) + 1))
        elif e["op"] == "refuse":
            e["feat"] = d.feat
            if rng.random() < .7:
                e["how"] = rng.choice(["ratio", "sum", "neg", "feat", "type", "flag", "files", "nolist", "wide", "buckets", "tolerance", "transform", "pre", "keep", "mode",
                                      "single", "vtype", "loc"])
        ev.append(dict(e, x=d.do(e)))
    return dict(ev=ev)


def check(run, focus, n):
    rng = run.rng
    plans = [[s["e"] for s in h] for h in run.generate("DatasetGen")]
    plans = [p for p in plans if any(e["op"] == "open" for e in p)]
    if len(plans) > run.n(60, 10 ** 9):
        plans = rng.sample(plans, 60)
    traces = [history(run, p, rng) for p in plans]
    for _ in range(run.n(*n)):
        p = [dict(op="open", mode=rng.choice(["per", "whole"]), vel=rng.random() < .5) for _ in range(rng.choice([1, 1, 2, 3]))]
        if focus == "masks" and rng.random() < .5:
            p.insert(0, dict(op="refuse", how="sum"))
        traces.append(history(run, p, rng))
    run.validate("DatasetTrace", traces, cfg="DatasetTrace_%s.cfg" % focus)


def C50(run):
    check(run, "masks", (120, 3000))


def C51(run):
    check(run, "labels", (120, 3000))


def C52(run):
    check(run, "persist", (120, 3000))


def C54(run):
    rng = run.rng
    plans = [[s["e"] for s in h] for h in run.generate("DatasetGen", "DatasetGen_deaths.cfg")]
    plans = [p for p in plans if p[-1]["op"] == "open" and any(e["op"] == "die" for e in p)]
    few = run.n(130, 4000)
    if len(plans) > few:
        plans = rng.sample(plans, few)
    for _ in range(run.n(70, 2000)):            # mostly one setting: one or two deaths, then a long life
        vel = rng.random() < .5

        def e(op, **k):
            return dict(op=op, mode=rng.choice(["per", "whole"]), vel=vel if rng.random() < .9 else not vel, **k)
        p = [e("open")] if rng.random() < .2 else []
        for _ in range(rng.choice([1, 1, 2])):
            p += [e("die", during=rng.choice(["copy", "first", "second", "second", "third"]))]
        plans.append(p + [e("open") for _ in range(rng.choice([3, 3, 4]))])
    run.validate("DatasetTrace", [history(run, p, rng) for p in plans], cfg="DatasetTrace_deaths.cfg")
