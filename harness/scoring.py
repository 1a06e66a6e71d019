"""C82: the trainer that classifies nodes (spec/Scoring.tla)."""
import math, sys, types
import numpy as np
import torch
import torch_geometric
from torch_geometric.data import Data
from .lib import outcome

S = 10000


# ------------------------------------------------------- stand-ins for what is not installed here
def per_class(y, p):
    y, p = np.asarray(y), np.asarray(p)
    ks = sorted(set(y.tolist()) | set(p.tolist()))
    return [(int(((p == k) & (y == k)).sum()), int(((p == k) & (y != k)).sum()), int(((p != k) & (y == k)).sum())) for k in ks]


def part(n, d):
    return n / d if d else 0.0


def measure(f):
    def g(y_true, y_pred, average="binary", **_):
        t = per_class(y_true, y_pred)
        if average == "micro":
            return f(*map(sum, zip(*t)))
        if average == "macro":
            return sum(f(*z) for z in t) / len(t)
        if average == "weighted":
            return sum(f(*z) * (z[0] + z[2]) for z in t) / sum(z[0] + z[2] for z in t)
        raise ValueError(average)
    return g


def standins():
    def module(name, **kw):
        try:
            __import__(name)
        except ImportError:
            m = types.ModuleType(name)
            m.__dict__.update(kw)
            sys.modules[name] = m
            if "." in name:
                setattr(sys.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
    module("sklearn")
    module("sklearn.metrics", f1_score=measure(lambda tp, fp, fn: part(2 * tp, 2 * tp + fp + fn)), precision_score=measure(lambda tp, fp, fn: part(tp, tp + fp)),
           recall_score=measure(lambda tp, fp, fn: part(tp, tp + fn)), accuracy_score=lambda y, p: float((np.asarray(y) == np.asarray(p)).mean()))
    module("sklearn.manifold", TSNE=None)
    module("wandb", log=lambda *a, **k: None, finish=lambda *a, **k: None, init=lambda *a, **k: None)
    module("torch_sparse", SparseTensor=type("SparseTensor", (), {}), matmul=None)


standins()
import minimum_example_node_classification as example  # noqa


# ------------------------------------------------------- the model: a table
class Table(torch.nn.Module):
    """Answers for node i (its feature) in table k; the same for every class while it learns."""

    def __init__(self, C, nodes):
        super().__init__()
        self.p = torch.nn.Parameter(torch.zeros(nodes, C))
        self.C, self.answers, self.k = C, None, 0
        self.calls = []                         # (mode, nodes)

    def forward(self, x, edge_index):
        ids = x.view(-1).long()
        self.calls.append((self.training, ids.tolist()))
        out = self.p[ids]
        if self.answers is not None and not self.training:
            k = self.k() if callable(self.k) else self.k
            out = out + torch.nn.functional.one_hot(torch.tensor([self.answers[k][i] for i in ids.tolist()]) - 1, self.C).float()
        return out


class Steps(torch.optim.Optimizer):
    """Takes no step; keeps the slopes it was given."""

    def __init__(self, params):
        super().__init__(params, dict(lr=1.0))
        self.slopes = []

    def step(self, closure=None):
        g = self.param_groups[0]["params"][0].grad
        self.slopes.append(None if g is None else (-g).detach().clone())


class Graphs(list):
    num_features = 1

    def __getitem__(self, i):
        return Graphs(list.__getitem__(self, i)) if isinstance(i, slice) else list.__getitem__(self, i)


def graph(g, first):
    n, e = len(g["y"]), [[0], [0]]
    m = {p: torch.tensor([[bool(s[p][i]) for s in g["m"]] for i in range(n)]) for p in ("train", "val", "test")}
    return Data(x=torch.arange(first, first + n).view(-1, 1).float(), y=torch.tensor(g["y"]) - 1, edge_index=torch.tensor(e),
                train_mask=m["train"], val_mask=m["val"], test_mask=m["test"])


def trainer(graphs, C, size=8, epochs=1, log=False):
    ds, at = Graphs(), 0
    for g in graphs:
        ds.append(graph(g, at))
        at += len(g["y"])
    whole = Graphs([ds[0]] * 99 + list(ds))     # it works on the hundredth graph and on
    whole.num_classes = C
    args = types.SimpleNamespace(epochs=epochs, batch_size=size, hidden_channels=2, num_layers=1, alpha=.5, theta=1.0, dropout=.2, lr=.01, weight_decay=0, wandb=log)
    t = example.NgcTrainer(args, whole)
    t.model = Table(C, at)
    t.optimizer = Steps([t.model.p])
    return t


def fl(v):
    v = float(v)
    return round(v * S) if math.isfinite(v) and abs(v) < 1000 else 10 ** 9


def train(t, e):
    d = graph(e["g"], 0)
    t.model.answers, k, c = None, len(t.optimizer.slopes), len(t.model.calls)
    loss, res, err = outcome(t.train, d)
    x = dict(out=res, err=err)
    if res == "ok":
        s = t.optimizer.slopes[k:]
        n = len(e["g"]["y"])
        x.update(steps=len(s), mode=all(m for m, _ in t.model.calls[c:]), loss=fl(loss), flat=fl(math.log(e["C"])),
                 slope=[[fl(v) for v in row] for row in (s[0] if s and s[0] is not None else torch.full((n, e["C"]), 999.)).tolist()][:n])
    return dict(e, x=x)


def test(t, e):
    d = graph(e["g"], 0)
    t.model.answers, t.model.k = [e["pred"]], 0
    k, c = len(t.optimizer.slopes), len(t.model.calls)
    t.model.p.grad = None
    r, res, err = outcome(t.test, d)
    x = dict(out=res, err=err)
    if res == "ok":
        x.update({m: [fl(v) for v in l] for m, l in zip(("acc", "f1", "precision", "recall"), r)})
        x.update(mode=any(m for m, _ in t.model.calls[c:]), steps=len(t.optimizer.slopes) - k, grad=t.model.p.grad is not None)
    return dict(e, x=x)


def run_(e):
    t = trainer(e["graphs"], e["C"], e["size"], len(e["pred"]), e["logged"])
    batches = -(-len(e["graphs"]) // e["size"])
    t.model.answers = [[p for g in k for p in g] for k in e["pred"]]
    t.model.k = lambda: min(max(0, len(t.optimizer.slopes) - 1) // batches, len(e["pred"]) - 1)
    log, was = [], example.wandb.log
    example.wandb.log = lambda d, *a, **k: log.append(dict(d))
    try:
        r, res, err = outcome(t.trainer)
    finally:
        example.wandb.log = was
    x = dict(out=res, err=err)
    if res == "ok":
        home = [i for i, g in enumerate(e["graphs"]) for _ in g["y"]]
        trained, seen, k = [], [], 0
        calls = [ids for m, ids in t.model.calls if m]
        for _ in e["pred"]:
            here = calls[k:k + batches]
            k += batches
            trained.append(len(here))
            seen.append([sum(any(home[i] == g for i in ids) for ids in here) for g in range(len(e["graphs"]))])
        if k != len(calls):
            trained.append(len(calls) - k)
        x.update(best=[fl(v) for v in r], trained=trained, seen=seen, epochs=[int(d.get("epoch", -1)) for d in log],
                 log=[{m: [fl(d.get("%s_%s" % (p, m), 999)) for p in ("train", "val", "test")] for m in ("accuracy", "f1", "precision", "recall")} for d in log])
    return dict(e, x=x)


# ------------------------------------------------------- inputs
def rgraph(rng, C, k):
    n = rng.choice([2, 3, 4, 5, 6])

    def mask():
        w = rng.sample(range(n), rng.choice([c for c in (1, 2, 3, 4) if c <= n]))
        return [int(i in w) for i in range(n)]
    return dict(y=[rng.randrange(1, C + 1) for _ in range(n)], m=[dict(train=mask(), val=mask(), test=mask()) for _ in range(k)])


def small(graphs, size):
    """parts of every batch of a size whose fractions stay small"""
    for b in range(0, len(graphs), size):
        for k in range(len(graphs[0]["m"])):
            for p in ("train", "val", "test"):
                if sum(sum(g["m"][k][p]) for g in graphs[b:b + size]) not in (1, 2, 3, 4, 6, 8, 12):
                    return False
    return True


def rrun(rng):
    while True:
        C, k, size = rng.choice([2, 3, 4]), rng.choice([1, 2]), rng.choice([1, 2, 3])
        gs = [rgraph(rng, C, k) for _ in range(rng.randint(1, 5))]
        if small(gs, size):
            break
    right = rng.choice([.2, .5, .8])
    pred = [[[y if rng.random() < right else rng.randrange(1, C + 1) for y in g["y"]] for g in gs] for _ in range(rng.randint(1, 4))]
    return dict(op="run", graphs=gs, C=C, size=size, pred=pred, logged=rng.random() < .7)


def C82(run):
    rng = run.rng
    evs = list(run.generate("ScoringGen"))
    if len(evs) > run.n(2500, 10 ** 9):
        evs = rng.sample(evs, 2500)
    for _ in range(run.n(1000, 20000)):
        C = rng.choice([2, 3, 4, 5])
        g = rgraph(rng, C, rng.choice([1, 2]))
        evs.append(dict(op="train", g=g, C=C) if rng.random() < .5 else
                   dict(op="test", g=g, C=C, pred=[y if rng.random() < .5 else rng.randrange(1, C + 1) for y in g["y"]]))
    by, traces = {}, []
    for e in evs:
        by.setdefault((e["C"]), []).append(e)
    for C, l in by.items():                     # histories of one trainer
        rng.shuffle(l)
        while l:
            t = trainer([dict(y=[1] * 6, m=[dict(train=[1] * 6, val=[1] * 6, test=[1] * 6)])], C)
            k = rng.randint(1, 8)
            now, l = l[:k], l[k:]
            traces.append(dict(ev=[train(t, e) if e["op"] == "train" else test(t, e) for e in now]))
    for _ in range(run.n(300, 5000)):
        traces.append(dict(ev=[run_(rrun(rng))]))
    run.validate("ScoringTrace", traces)


# ---------------------------------------------------------------------- C83
def walkers():
    import ngc_shared
    sys.modules.setdefault("example_shared", ngc_shared)     # the name the examples know it by
    import example03_lstm, example03a_lstm
    return [example03_lstm, example03a_lstm]


def weighted(g, shape):
    e = torch.tensor([[x[0] for x in g["edges"]], [x[1] for x in g["edges"]]], dtype=torch.long).view(2, -1)
    w = torch.tensor([float(x[2]) for x in g["edges"]])
    return Data(x=torch.zeros(g["n"], 1), edge_index=e, edge_attr=w.view(-1, 1) if shape else w)


def state(d):
    return d.edge_index.tolist(), d.edge_attr.tolist(), d.x.tolist()


def walk(m, e, shape):
    d = weighted(e["g"], shape)
    was = state(d)
    r, res, err = outcome(m.dijkstra_traversal2, d, e["from"])
    x = dict(out=res, err=err, same=state(d) == was)
    if res == "ok":
        x.update(nodes=[int(v) for v in r[0]], edges=[[int(u), int(v)] for u, v in r[1]])
    return dict(e, x=x)


def embed(m, e, own):
    d = weighted(e["g"], False)
    was, table = state(d), torch.tensor(e["table"]).float()
    model = types.SimpleNamespace(gcn_model=lambda x, ei: table.clone())
    if own:
        r, res, err = outcome(m.GraphGenerationModel.get_graph_edge_embeddings, model, d)
        r = (None, r)
    else:
        r, res, err = outcome(m.compute_node_and_edge_embeddings, model, d)
    x = dict(out=res, err=err, same=state(d) == was)
    if res == "ok":
        x.update(rows=[[int(v) for v in l] for l in r[1].tolist()], nodes=[] if r[0] is None else [[int(v) for v in l] for l in r[0].tolist()])
    return dict(e, x=x)


def rwide(rng):
    n = rng.choice([1, 2, 4, 7, 12, 25])
    pairs = {(rng.randrange(n), rng.randrange(n)) for _ in range(rng.choice([1, n, n, 2 * n, 3 * n]))}
    edges = [[u, v, rng.choice([1, 1, 2, 3, 10, 40]) if rng.random() < .95 else 0] for u, v in pairs]
    rng.shuffle(edges)
    return dict(n=n, edges=edges)


def C83(run):
    rng, ms, traces = run.rng, walkers(), []
    gen = list(run.generate("WalkGen"))
    if len(gen) > run.n(4000, 10 ** 9):
        gen = rng.sample(gen, 4000)
    for e in gen:
        for m in ms if not run.quick else [rng.choice(ms)]:
            traces.append(dict(ev=[walk(m, e, rng.random() < .5)]))
    for _ in range(run.n(800, 15000)):
        m, g = rng.choice(ms), rwide(rng)
        traces.append(dict(ev=[walk(m, dict(op="walk", g=g, **{"from": rng.randrange(g["n"])}), rng.random() < .5) for _ in range(2)]))
        table = [[rng.randrange(-9, 10) for _ in range(rng.choice([2, 3]))][:2] for _ in range(g["n"])]
        traces[-1]["ev"].append(embed(m, dict(op="embed", g=g, table=table), rng.random() < .5))
        names = rng.sample(range(1000), 6)
        found = [rng.randrange(6) for _ in range(rng.choice([0, 1, 5]))]
        r, res, err = outcome(m.map_labels_to_hashes, torch.tensor(found, dtype=torch.long), list(names) if rng.random() < .5 else dict(enumerate(names)))
        traces[-1]["ev"].append(dict(op="names", found=found, names=names, x=dict(out=res, err=err, same=True, r=[int(v) for v in r] if res == "ok" else [])))
    run.validate("WalkTrace", traces)
