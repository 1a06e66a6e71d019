"""C80, C81: what the trainers share (spec/Training.tla, spec/Splitting.tla)."""
import os, resource, signal, sys, time, types
import numpy as np
import torch
import torch_geometric  # noqa: before any stand-in: it looks for what is installed
from .lib import MachineryError, grid, outcome
from .notes import num
try:
    import sklearn.manifold  # noqa: only a drawing helper needs it
except ImportError:
    sys.modules["sklearn"] = types.ModuleType("sklearn")
    sys.modules["sklearn.manifold"] = types.ModuleType("sklearn.manifold")
    sys.modules["sklearn.manifold"].TSNE = None
import ngc_shared
from ngc_shared import Experiments

PARTS = dict(train=["train_losses", "train_f1s", "train_accs", "train_recalls", "train_precisions"],
             val=["val_accs", "val_f1s", "val_precisions", "val_recalls"],
             test=["test_accs", "test_f1s", "test_precisions", "test_recalls", "test_aps", "test_aucs"])


class Graphs(list):
    """Stands in for a dataset: the trainer only counts it."""
    num_classes = 3


def quietly(f):
    """f() in a child that may be killed; nothing comes back."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            f()
        finally:
            os._exit(0)
    t0 = time.time()
    while os.waitpid(pid, os.WNOHANG)[0] == 0:
        if time.time() - t0 > 60:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise MachineryError("a child of the training check hangs")
        time.sleep(.001)


class TrainingDriver:
    def __init__(self, tmp):
        self.dir = os.path.join(tmp, "tr%d" % len(os.listdir(tmp)))
        os.makedirs(self.dir)
        self.ex = None

    def opt(self, o):
        """an optimizer state that is nothing but the number o"""
        for g in self.ex.optimizer.param_groups:
            g["lr"] = o / 8
            for p in g["params"]:
                self.ex.optimizer.state[p]["momentum_buffer"] = torch.full_like(p, float(o))

    def start(self, e):
        self.ex = Experiments(Graphs([1]), model_type=e["type"])
        self.ex.metrics_dir = os.path.join(self.dir, "metric")
        self.ex.metrics_rate, self.ex.save_metrics = e["every"], e["on"]
        self.ex.model = torch.nn.Linear(2, 3)
        self.ex.optimizer = torch.optim.SGD(self.ex.model.parameters(), lr=0.0, momentum=.5)
        self.set(dict(w=0, o=0))

    def set(self, e):
        with torch.no_grad():
            self.ex.model.weight.fill_(e["w"])
            self.ex.model.bias.fill_(-e["w"])
        self.opt(e["o"])

    def epoch(self, e):
        self.ex.current_epoch = e["n"]

    def save(self, e):
        self.ex.save_checkpoint(e["n"], self.ex.optimizer.state_dict(), output_dir=os.path.join(self.dir, "ck"), model_name=e["type"])

    def load(self, e):
        self.ex.load_checkpoint(e["type"], os.path.join(self.dir, "ck"))

    def clear(self, e):
        self.ex.clear_metric()

    def report(self, e):
        v = dict(zip(PARTS[e["part"]], [None if z == -1 else z / 8 for z in e["v"]]))
        if e["part"] == "train":
            self.ex.update_metrics(v["train_losses"], train_f1=v["train_f1s"], train_acc=v["train_accs"],
                                   train_recall=v["train_recalls"], train_precision=v["train_precisions"])
        elif e["part"] == "val":
            self.ex.update_val_metric(v["val_accs"], v["val_f1s"], v["val_precisions"], v["val_recalls"])
        else:
            self.ex.update_test_metric(test_acc=v["test_accs"], test_f1=v["test_f1s"], test_precision=v["test_precisions"],
                                       test_recall=v["test_recalls"], test_ap=v["test_aps"], test_auc=v["test_aucs"])

    def die(self, f, e):
        """The process dies when the file it writes has e.at bytes, or (-1) right after writing it."""
        def run():
            if e["at"] >= 0:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (e["at"], e["at"]))
            f(e)
        quietly(run)

    def now(self):
        ex = self.ex
        ws = set(ex.model.weight.flatten().tolist()) | {-b for b in ex.model.bias.tolist()}
        os_ = set()
        for g in ex.optimizer.param_groups:
            os_.add(g["lr"] * 8)
            for p in g["params"]:
                b = ex.optimizer.state.get(p, {}).get("momentum_buffer")
                os_ |= {0.0} if b is None else set(b.flatten().tolist())
        one = lambda s: grid(s.pop(), 1) if len(s) == 1 else -5
        return dict(w=one(ws), o=one(os_), cur=num(ex.current_epoch), start=num(ex.start_epoch),
                    L={k: [grid(v, 8) for v in getattr(ex, k)] for ks in PARTS.values() for k in ks})

    def do(self, e):
        if e["op"] in ("die-saving", "die-reporting"):
            self.die(self.save if e["op"] == "die-saving" else self.report, e)
            return dict(res="ok")
        _, r, err = outcome(getattr(self, e["op"]), e)
        return dict(res=r, err=err, now=self.now())


def history(run, cmds, rng):
    d, ev = TrainingDriver(run.tmp), []
    for e in cmds:
        e = dict(e)
        if e["op"].startswith("die"):
            e["at"] = rng.choice([-1, 0, 1, 200, 700, 1500, 2500])
        ev.append(dict(e, x=d.do(e)))
    return dict(ev=ev)


def rlife(rng):
    """A longer life: several processes, all kinds of metrics, settings and epochs."""
    types_, out = rng.choice([["GCN", "GCN3"], ["GAE_GCN", "GAE"], ["a", "a_2", "a_test"]]), []
    vals = 0
    every, on = rng.choice([1, 1, 1, 2, 5, 0]), rng.random() < .9
    for _ in range(rng.randint(1, 4)):
        t = rng.choice(types_[:rng.choice([1, 2, 3])])
        out.append(dict(op="start", type=t, every=every, on=on))
        if rng.random() < .6:
            out.append(dict(op="load", type=t))
        w, o, dead = rng.randint(1, 50), rng.randint(1, 50), False
        out.append(dict(op="set", w=w, o=o))
        for _ in range(rng.randint(1, 9)):
            k = rng.random()
            if k < .35:
                p = rng.choice(list(PARTS))
                v = [rng.randint(0, 400) if p == "val" or rng.random() < .8 else -1 for _ in PARTS[p]]
                op = "report" if rng.random() < .93 else "die-reporting"
                out.append(dict(op=op, part=p, v=v))
                dead = op != "report"
            elif k < .5:
                w, o = rng.randint(1, 50), rng.randint(1, 50)
                out.append(dict(op="set", w=w, o=o))
            elif k < .75:
                op = "save" if rng.random() < .85 else "die-saving"
                out.append(dict(op=op, type=t, n=rng.choice([0, 1, 2, 9, 10, 11, 20, 99, 100, 101])))
                dead = op != "save"
            elif k < .85:
                out.append(dict(op="load", type=t if rng.random() < .8 else rng.choice(types_)))
            elif k < .95:
                out.append(dict(op="epoch", n=rng.randint(0, 12)))
            else:
                out.append(dict(op="clear"))
            if dead:
                break
    t = rng.choice(types_)
    out += [dict(op="start", type=t, every=every, on=on), dict(op="load", type=t)]
    return out


def C80(run):
    rng = run.rng
    plans = [[s["e"] for s in h] for h in run.generate("TrainingGen")]
    plans = [p for p in plans if p[-1]["op"] == "load"]
    few = run.n(500, 6000)
    if len(plans) > few:
        plans = rng.sample(plans, few)
    plans += [rlife(rng) for _ in range(run.n(250, 6000))]
    run.validate("TrainingTrace", [history(run, p, rng) for p in plans])


# --- C81 ---------------------------------------------------------------------
class Few(torch_geometric.data.Dataset):
    """A dataset of graphs with nothing but a name each."""
    num_classes = 3

    def __init__(self, ids):
        self.ids = list(ids)
        super().__init__()

    def len(self):
        return len(self.ids)

    def get(self, i):
        return torch_geometric.data.Data(x=torch.tensor([[float(self.ids[i])]]), edge_index=torch.zeros((2, 0), dtype=torch.long))


def named(ds):
    return [num(int(ds[i].x[0, 0])) for i in range(len(ds))]


SETTING = [dict(kind="int", n=100), dict(kind="int", n=1), dict(kind="int", n=0), dict(kind="int", n=-3), dict(kind="none", n=0),
           dict(kind="float", n=3), dict(kind="str", n=3)]
DATASETS = dict(dataset=lambda: Few([1]), none=lambda: None, number=lambda: 3,
                unsized=lambda: type("U", (), dict(num_classes=2, __getitem__=lambda s, i: i))(),
                unread=lambda: type("U", (), dict(num_classes=2, __len__=lambda s: 3))())


def value(v):
    return dict(int=lambda n: n, none=lambda n: None, float=float, str=str)[v["kind"]](v["n"])


def reseed(rng):
    np.random.seed(rng.randrange(2 ** 32))
    torch.manual_seed(rng.randrange(2 ** 31))


def thin(run, g, plan, rng):
    from .transforms import build, observe
    d, ev = build(g), []
    start = observe(d)
    for p in plan:
        reseed(rng)
        h, res, err = outcome(lambda: Experiments.remove_nodes_and_edges(d, p[0] / p[1]))
        x = dict(out=res, err=err, before=observe(d))
        if res == "ok":
            x["g"], ok, _ = outcome(observe, h)
            x["out"] = "ok" if ok == "ok" else "unreadable"
        ev.append(dict(op="thin", p=p, x=x))
        if x["out"] != "ok" or x["g"]["n"] == 0:
            break
        d = h
    return dict(g=start, ev=ev)


def C81(run):
    from .transforms import FULL, build, observe, rgraph
    rng, out = run.rng, []
    ev = [dict(op="make", epochs=a, batch=b, ds=c) for a in SETTING for b in SETTING for c in DATASETS]
    for e in ev:
        _, res, err = outcome(lambda: Experiments(DATASETS[e["ds"]](), epochs=value(e["epochs"]), batch_size=value(e["batch"])))
        e["x"] = dict(out=res, err=err)
    none = observe(build(dict(rgraph(rng), n=1)))
    out += [dict(g=none, ev=ev)]
    for _ in range(run.n(400, 8000)):                                    # any graphs, several splits of one dataset
        n = rng.choice([1, 2, 3, 4, 5, 6, 9, 10, 11, 15, 25, 40, rng.randint(1, 70)])
        ds, ev = Few(rng.sample(range(1, 500), n)), []
        ex = Experiments(ds)
        p = [4, 5]
        for _ in range(rng.randint(1, 3)):
            if hasattr(ex, "train_ration") and rng.random() < .5:
                p = rng.choice([q for q in FULL if q[0]])
                ex.train_ration = p[0] / p[1]
            reseed(rng)
            _, res, err = outcome(ex.split, ds)
            x = dict(out=res, err=err, before=named(ds))
            if res == "ok":
                x.update(train=named(ex.train_dataset), test=named(ex.test_dataset))
            ev.append(dict(op="split", ids=ds.ids, p=p, x=x))
        out.append(dict(g=none, ev=ev))
    for n in (1, 2, 3, 4, 5, 6):
        ids, seen = rng.sample(range(1, 100), n), set()
        reseed(rng)
        for _ in range(run.n(600, 3000)):
            ex = Experiments(Few(ids))
            ex.split(Few(ids))
            seen.add(tuple(sorted(named(ex.train_dataset))))
        out.append(dict(g=none, ev=[dict(op="all-parts", ids=ids, p=[4, 5], x=dict(out="ok", draws=[list(t) for t in seen]))]))
    seen = set()
    for z in run.generate("TransformsGen"):                              # every small graph and rate
        k = repr(z["g"]) + repr(z["c"][0].get("p"))
        if z["c"][0]["op"] != "dropnodes" or k in seen:
            continue
        seen.add(k)
        out.append(thin(run, dict(z["g"], weighted=any(e["w"] for e in z["g"]["edges"])), [c["p"] for c in z["c"] if "p" in c], rng))
    for _ in range(run.n(800, 20000)):
        out.append(thin(run, rgraph(rng), [rng.choice(FULL) for _ in range(rng.randint(1, 3))], rng))
    for n, p in ((4, [1, 2]), (5, [1, 4]), (3, [2, 3]), (5, [1, 5]), (2, [1, 2])):
        g = rgraph(rng)
        while g["n"] < n:
            g = rgraph(rng)
        g = dict(n=n, x=g["x"][:n], y=g["y"][:n], h=[], lab=[], tr=[1] * n, va=[0] * n, te=[0] * n, gid=[], edges=[], weighted=False)
        reseed(rng)
        kept = set()
        for _ in range(run.n(600, 3000)):
            kept.add(tuple(sorted(r[0] for r in observe(Experiments.remove_nodes_and_edges(build(g), p[0] / p[1]))["x"])))
        out.append(dict(g=observe(build(g)), ev=[dict(op="all-thin", p=p, x=dict(out="ok", draws=[list(k) for k in kept]))]))
    run.validate("SplittingTrace", out)
