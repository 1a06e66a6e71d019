"""C60, C61: graph transforms (spec/Transforms.tla)."""
import contextlib, json, os
import numpy as np
import torch
from torch_geometric.data import Data
from .lib import grid, outcome
from .notes import num
from .graphs import rows
from neural_graph_composer import transforms as T

MASKS = dict(tr="train_mask", va="val_mask", te="test_mask")
FULL = [[0, 1], [1, 4], [1, 2], [3, 4], [1, 3], [2, 3], [1, 10], [7, 10], [29, 100], [1, 1]]


def build(g, lists=True):
    """A Data object as the dataset delivers them (node_hash and label are lists, features floats)."""
    d = Data(x=torch.tensor(g["x"], dtype=torch.float).reshape(g["n"], -1),
             edge_index=torch.tensor([[e["s"] - 1 for e in g["edges"]], [e["t"] - 1 for e in g["edges"]]], dtype=torch.long).reshape(2, -1))
    if g.get("weighted"):
        d.edge_attr = torch.tensor([e["w"] for e in g["edges"]], dtype=torch.float).reshape(len(g["edges"]), len(g["edges"][0]["w"]) if g["edges"] else 1)
    if g["y"]:
        d.y = torch.tensor(g["y"], dtype=torch.long)
    for k, name in MASKS.items():
        if g[k]:
            setattr(d, name, torch.tensor(g[k], dtype=torch.bool))
    if g["h"]:
        d.node_hash = list(g["h"])
    if g["lab"]:
        d.label = list(g["lab"])
    return d


def lst(v):
    if v is None:
        return []
    return [num(int(b) if isinstance(b, bool) else b) for b in (v.tolist() if hasattr(v, "tolist") else list(v))]


def observe(d):
    e = d.edge_index.tolist()
    a = getattr(d, "edge_attr", None)
    w = [[] for _ in e[0]] if a is None else [r for r in rows(a.reshape(a.shape[0], -1))] if a.shape[0] else []
    x = d.x.reshape(d.x.shape[0], -1) if d.x.shape[0] else d.x
    gid = getattr(d, "graph_id", None)
    return dict(n=num(d.num_nodes), x=rows(x) if x.shape[0] else [], y=lst(d.y), h=lst(getattr(d, "node_hash", None)), lab=lst(getattr(d, "label", None)),
                edges=[dict(s=u + 1, t=v + 1, w=w[i] if i < len(w) else ["none"]) for i, (u, v) in enumerate(zip(e[0], e[1]))]
                + [dict(s=0, t=0, w=r) for r in w[len(e[0]):]],
                gid=[] if gid is None else [num(z) for z in gid.reshape(-1).tolist()], **{k: lst(getattr(d, n, None)) for k, n in MASKS.items()})


class Stub:
    """A dataset as GraphIDTransform asks for it."""
    num_classes = 3

    def __init__(self):
        self.at = 0

    def get_graph_id(self):
        return self.at


def rgraph(rng):
    n = rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 12])
    f, m = rng.choice([1, 4, 12]), rng.choice([0, 0, 1, 3, n, 2 * n, 3 * n])
    weighted, wd = rng.random() < .6, rng.choice([1, 1, 2])
    ids = rng.sample(range(1, 200), n)
    pick = [(rng.randint(1, n), rng.randint(1, n)) for _ in range(m)]
    if rng.random() < .2:
        pick = [(a, b) for a, b in pick if a != n and b != n]           # an isolated node
    edges = [dict(s=a, t=b, w=[rng.randint(1, 9) for _ in range(wd)] if weighted else []) for a, b in pick]
    g = dict(n=n, x=[[i] + [rng.randint(0, 127) for _ in range(f - 1)] for i in ids], edges=edges, weighted=weighted, gid=[],
             y=[rng.randint(0, 9) for _ in ids], h=[rng.randint(0, 2 ** 30) for _ in ids] if rng.random() < .8 else [],
             lab=[rng.randint(0, 9) for _ in ids] if rng.random() < .4 else [], tr=[], va=[], te=[])
    if rng.random() < .8:
        for i in range(n):
            k = rng.choice(["tr", "va", "te"])
            for z in ("tr", "va", "te"):
                g[z].append(int(z == k))
    if rng.random() < .1:
        g["y"] = []
    return g


@contextlib.contextmanager
def extreme(rng):
    """At the rates 0 and 1 the outcome is certain, even if the uniform draws are the extreme ones."""
    if rng is None or rng.random() < .5:
        yield
        return
    real, v = torch.rand, rng.choice([0.0, 1 - 2.0 ** -24])
    torch.rand = lambda *a, **k: torch.full_like(real(*a, **k), v)
    try:
        yield
    finally:
        torch.rand = real


def play(run, g, plan, rng):
    d, ev, ds = build(g), [], Stub()
    start = observe(d)
    for e in plan:
        torch.manual_seed(rng.randrange(2 ** 31))
        e = dict(e)
        if e["op"] == "draws":
            kept = set()
            t = (T.RandomNodeDrop if e["what"] == "nodes" else T.RandomEdgeDrop)(p=e["p"][0] / e["p"][1])
            err = None
            for _ in range(1500):
                h, res, err = outcome(lambda: observe(t(build(g))))
                if res != "ok":
                    break
                kept.add(tuple(sorted(r[0] for r in h["x"])) if e["what"] == "nodes"
                         else tuple(sorted([z["w"][0] for z in h["edges"]])))
            ev.append(dict(e, x=dict(out=res, draws=[list(k) for k in kept])))
            continue
        if e["op"] == "gid":
            ds.at = rng.randint(0, 40)
            make = lambda: T.GraphIDTransform(ds)
        elif e["op"] == "degree":
            make = T.AddDegreeTransform
        else:
            make = lambda: (T.RandomNodeDrop if e["op"] == "dropnodes" else T.RandomEdgeDrop)(p=e["p"][0] / e["p"][1])
        with extreme(rng if e["op"] == "dropedges" and e["p"][0] in (0, e["p"][1]) else None):
            h, res, err = outcome(lambda: make()(d))
        x = dict(out=res, err=err, before=observe(d), reported=ds.at)
        if res == "ok":
            x["g"], ok, _ = outcome(observe, h)
            if ok != "ok":
                x["out"] = "unreadable"
        ev.append(dict(e, x=x))
        if x["out"] != "ok":
            break
        d = h
        if d.num_nodes == 0 or any(z["s"] not in range(1, d.num_nodes + 1) or z["t"] not in range(1, d.num_nodes + 1) for z in x["g"]["edges"]):
            break
    return dict(g=start, ev=ev)


def check(run, ops, n, extra=()):
    rng = run.rng
    seen, traces = set(), []
    gen = []
    for z in run.generate("TransformsGen"):
        k = json.dumps(z, sort_keys=True)
        if k not in seen and z["c"][-1]["op"] in ops:
            seen.add(k)
            gen.append(z)
    if run.quick and len(gen) > 2500:
        gen = rng.sample(gen, 2500)
    for z in gen:
        g = dict(z["g"], weighted=any(e["w"] for e in z["g"]["edges"]))
        traces.append(play(run, g, z["c"], rng))
    for _ in range(run.n(*n)):
        plan = [dict(op=o, **(dict(p=rng.choice(FULL)) if o.startswith("drop") else {}))
                for o in (rng.choice(ops if rng.random() < .7 else ["dropnodes", "dropedges", "degree", "gid"]) for _ in range(rng.randint(1, 4)))]
        traces.append(play(run, rgraph(rng), plan, rng))
    traces += list(extra)
    run.validate("TransformsTrace", traces)


def C60(run):
    rng, extra = run.rng, []
    for n, what, p in ((4, "nodes", [1, 2]), (5, "nodes", [1, 4]), (3, "nodes", [2, 3]), (3, "edges", [1, 2]), (4, "edges", [1, 2]), (3, "edges", [3, 4]), (3, "edges", [1, 4])):
        g = rgraph(rng)
        while g["n"] < n or len(g["edges"]) < n:
            g = rgraph(rng)
        if what == "edges":
            g["edges"] = [dict(e, w=[i + 1]) for i, e in enumerate(g["edges"][:n])]
            g["weighted"] = True
        else:
            g = dict(n=n, x=g["x"][:n], y=g["y"][:n], h=[], lab=[], tr=[1] * n, va=[0] * n, te=[0] * n, gid=[], edges=[], weighted=False)
        extra.append(play(run, g, [dict(op="draws", what=what, p=p)], rng))
    check(run, ["dropnodes", "dropedges"], (1500, 40000), extra)


def C61(run):
    check(run, ["degree", "gid"], (1500, 40000), real(run))


def real(run):
    """The transforms as a real dataset applies them."""
    from neural_graph_composer.midi_dataset import MidiDataset
    from .dataset import DatasetDriver
    rng, out = run.rng, []
    for _ in range(run.n(8, 80)):
        drv = DatasetDriver(run.tmp, rng)
        a = drv.args(dict(mode=rng.choice(["per", "whole"]), vel=False, feat=12, filter=False, split=True, tr=[1, 2], va=[1, 4], remove=rng.random() < .5))
        cwd = os.getcwd()
        os.chdir(drv.dir)
        try:
            ds, res, err = outcome(MidiDataset, **a)
            if res != "ok":
                continue                                      # C50-C52 judge building
            plain = [observe(ds[i]) for i in range(len(ds))]
            tid, res, err = outcome(T.GraphIDTransform, ds)
            order = list(range(len(ds)))
            rng.shuffle(order)
            for op, t in (("gid", tid), ("degree", T.AddDegreeTransform())):
                ds.transform = t
                for i in order:
                    h, res, err = outcome(lambda: observe(ds[i]))
                    out.append(dict(g=plain[i], ev=[dict(op=op, x=dict(out=res, err=err, before=plain[i], reported=i, g=h or {}))]))
        finally:
            os.chdir(cwd)
    return out
