"""C33: the interval tree as the set of its intervals (spec/Tree.tla)."""
import copy
import pickle
from .lib import grid, outcome
from neural_graph_composer.interval import FloatIntervalTree, FloatInterval

SCALES = (1, 1.0, 0.5, 0.1)


def combine(a, d):
    g = lambda v: 5 if v is None else v
    return (g(a) * 10 + g(d)) % 9973


def cut(i, below):
    return (2 * (5 if i.data is None else i.data) + (0 if below else 1)) % 9973


class TreeDriver:
    def __init__(self, scale=1):
        self.t, self.n, self.u = [FloatIntervalTree(), FloatIntervalTree()], 0, scale

    def iv(self, i):
        return FloatInterval(i["b"] * self.u, i["e"] * self.u, None if i["d"] == -1 else i["d"])

    def tup(self, i):
        return (i["b"] * self.u, i["e"] * self.u) + (() if i["d"] == -1 else (i["d"],))

    def back(self, i):
        g = lambda v: grid(v, 1 / self.u)
        return dict(b=g(i.begin), e=g(i.end), d=-1 if i.data is None else grid(i.data, 1))

    def rows(self, s):
        s = [self.back(i) for i in s]
        return sorted(s, key=lambda i: (i["b"], i["e"], i["d"]))

    def apply(self, e):
        self.n += 1
        n, u, op = self.n, self.u, e["op"]
        if op == "pair":
            return self.pair(self.iv(e["i"]), self.iv(e["j"]), e["p"] * u)
        T, k = self.t, e["k"] - 1
        t = T[k]
        b, en, p = e.get("b", 0) * u, e.get("e", 0) * u, e.get("p", 0) * u
        fn = dict(datafunc=cut) if e.get("f") else {}
        merge = {}
        if e.get("g"):
            merge["data_reducer"] = combine
        if e.get("init", -1) >= 0:
            merge["data_initializer"] = e["init"]
        if op == "new":
            T[k] = (FloatIntervalTree([self.iv(i) for i in e["l"]]), FloatIntervalTree.from_tuples(self.tup(i) for i in e["l"]))[n % 2]
        elif op == "add":
            i = self.iv(e["i"])
            (lambda: t.add(i), lambda: t.append(i), lambda: t.addi(*i), lambda: t.appendi(*i), lambda: t.__setitem__(slice(i.begin, i.end), i.data))[n % 5]()
        elif op == "remove":
            i = self.iv(e["i"])
            t.remove(i) if n % 2 else t.removei(*i)
        elif op == "discard":
            i = self.iv(e["i"])
            t.discard(i) if n % 2 else t.discardi(*i)
        elif op == "update":
            t.update(self.iv(i) for i in e["l"])
        elif op == "clear":
            t.clear()
        elif op == "at":
            return self.rows(t.at(p) if n % 2 else t[p])
        elif op == "probe":
            return [self.rows(t.at(q * u)) for q in e["ps"]]
        elif op == "overlap":
            return self.rows((lambda: t.overlap(b, en), lambda: t[b:en], lambda: t.overlap(FloatInterval(b, en)))[n % 3]())
        elif op == "envelop":
            return self.rows(t.envelop(b, en) if n % 2 else t.envelop(FloatInterval(b, en)))
        elif op == "any":
            if b == en:
                return int(t.overlaps(b) if n % 2 else t.overlaps_point(b))
            return int((lambda: t.overlaps(b, en), lambda: t.overlaps_range(b, en), lambda: t.overlaps(FloatInterval(b, en)))[n % 3]())
        elif op == "in":
            i = self.iv(e["i"])
            return int(i in t if n % 2 else t.containsi(*i))
        elif op == "about":
            r = t.range()
            x = dict(n=len(t), b=grid(t.begin(), 1 / u), e=grid(t.end(), 1 / u), span=grid(t.span(), 1 / u))
            if t.is_empty() != (x["n"] == 0) or self.back(r) != dict(b=x["b"], e=x["e"], d=-1) or len(list(t)) != x["n"] or len(t.items()) != x["n"]:
                x["n"] = -1
            return x
        elif op == "nested":
            d = t.find_nested()
            return [dict(i=i, l=self.rows(next(v for q, v in d.items() if self.back(q) == i))) for i in self.rows(d)]
        elif op == "cutover":
            if b == en:
                if n % 2:
                    del t[b]
                else:
                    t.remove_overlap(b)
            else:
                t.remove_overlap(b, en)
        elif op == "cutenvelop":
            t.remove_envelop(b, en)
        elif op == "chop":
            t.chop(b, en, **fn)
        elif op == "slice":
            t.slice(p, **fn)
        elif op == "split":
            t.split_overlaps()
        elif op == "overlaps":
            t.merge_overlaps(strict=bool(e["strict"]), **merge)
        elif op == "equals":
            t.merge_equals(**merge)
        elif op == "neighbors":
            t.merge_neighbors(strict=bool(e["strict"]), distance=e["dist"] * u * (1 + 1e-9), **merge)
        elif op == "copy":
            T[e["to"] - 1] = (lambda: t.copy(), lambda: pickle.loads(pickle.dumps(t)), lambda: FloatIntervalTree(t), lambda: copy.deepcopy(t))[n % 4]()
        elif op == "algebra":
            o = T[e["j"] - 1]
            T[e["to"] - 1] = dict(union=t.union, intersection=t.intersection, difference=t.difference, symmetric=t.symmetric_difference)[e["how"]](o)
        elif op == "inplace":
            o = T[e["j"] - 1]
            dict(union=t.update, intersection=t.intersection_update, difference=t.difference_update, symmetric=t.symmetric_difference_update)[e["how"]](o)
        elif op == "compare":
            o = T[e["j"] - 1]
            return dict(eq=7 if (t == o) == (t != o) else int(t == o), sub=int(all(i in o for i in t)), apart=int(not any(i in o for i in t)))
        return 0

    def pair(self, i, j, p):
        g = lambda v: grid(v, 1 / self.u)
        over, same = i.overlaps(j), i == j
        if over != i.overlaps(j.begin, j.end) or i.overlaps(p) != i.contains_point(p) or i.copy() != i or pickle.loads(pickle.dumps(i)) != i:
            over = 7
        if same and hash(i) != hash(j) or same == (i != j):
            same = 7
        size = i.overlap_size(j)
        if size != i.overlap_size(j.begin, j.end):
            size = -999
        return dict(over=int(over), size=g(size), gap=g(i.distance_to(j)), has=int(i.contains_interval(j)), same=int(i.range_matches(j)), eq=int(same),
                    lt=int(i.lt(j)), le=int(i.le(j)), gt=int(i.gt(j)), ge=int(i.ge(j)), before=int(i < j), after=int(i > j),
                    point=int(i.contains_point(p)), off=g(i.distance_to(p)), len=g(i.length()))

    def do(self, e):
        x, res, err = outcome(self.apply, e)
        if self.n % 4 == 0 or e["op"] == "about":
            for t in self.t:
                t.verify()                        # raises unless the search tree fits the set
                x = x if 0 <= t.score() <= 1 else dict(score=t.score())
        return dict(ok=int(res == "ok"), x=x if res == "ok" else 0, all=[self.rows(t) for t in self.t])


def play(cmds):
    d = TreeDriver(SCALES[sum(len(c["op"]) for c in cmds) % len(SCALES)])
    return [d.do(e) for e in cmds]


class Maker:
    def __init__(self, rng):
        self.rng, self.d, self.ev = rng, TreeDriver(rng.choice(SCALES)), []
        self.top = rng.choice([6, 12, 30])
        self.data = rng.choice([[-1], [0], [-1, 0, 1, 2, 3]])
        self.max = rng.choice([4, 10, 16])
        self.k = 1

    def run(self, **e):
        self.ev.append(dict(e, x=self.d.do(e)))

    def fresh(self):
        r = self.rng
        b = r.randint(0, self.top)
        return dict(b=b, e=b + (r.randint(1, 4) if r.random() < .7 else r.randint(1, self.top)), d=r.choice(self.data))

    def some(self, k):
        rows = self.d.rows(self.d.t[k - 1])
        return self.rng.choice(rows) if rows and self.rng.random() < .8 else self.fresh()

    def span(self):
        r = self.rng
        b = r.randint(-1, self.top + 2)
        return dict(b=b, e=b + r.choice([-1, 0, 1, 1, 2, 3, 6, self.top]))

    def step(self):
        r, k = self.rng, (self.k if self.rng.random() < .85 else self.rng.randint(1, 2))
        n = len(self.d.t[k - 1])
        if n < self.max and r.random() < (.6 if n < self.max // 2 else .3):
            i = self.some(k) if r.random() < .2 else self.fresh()
            if r.random() < .03:
                i = dict(i, e=i["b"] - r.randint(0, 1))
            return self.run(op="add", k=k, i=i)
        op = r.choice(["remove"] * 3 + ["discard", "overlap", "overlap", "envelop", "any", "any", "in", "about", "probe", "probe", "nested", "cutover", "cutenvelop",
                                        "chop", "slice", "split", "overlaps", "equals", "neighbors", "copy", "algebra", "inplace", "compare", "pair", "new", "update"]
                      + (["clear"] if r.random() < .1 else []))
        if op in ("remove", "discard", "in"):
            return self.run(op=op, k=k, i=self.some(k))
        if op in ("overlap", "envelop", "any"):
            return self.run(op=op, k=k, **self.span())
        if op in ("cutover", "cutenvelop", "chop"):
            s = self.span()
            if op == "chop":
                if n > self.max + 6 or s["e"] <= s["b"]:
                    return
                s["f"] = r.randint(0, 1)
            elif s["e"] - s["b"] > 3 and r.random() < .7:
                return
            return self.run(op=op, k=k, **s)
        if op == "probe":
            return self.run(op=op, k=k, ps=[r.randint(-1, self.top + 5) for _ in range(6)])
        if op == "slice":
            return self.run(op=op, k=k, p=r.randint(-1, self.top + 3), f=r.randint(0, 1)) if n <= self.max + 6 else None
        if op == "split":
            return self.run(op=op, k=k) if n <= 6 else None
        if op in ("overlaps", "equals", "neighbors"):
            if op != "equals" and r.random() < .5:
                return
            g = r.randint(0, 1)
            e = dict(g=g, init=7 if g and r.random() < .5 else -1)
            if op != "equals":
                e["strict"] = r.randint(0, 1)
            if op == "neighbors":
                e["dist"] = r.randint(0, 2)
            return self.run(op=op, k=k, **e)
        j = 3 - k
        if op == "copy":
            return self.run(op=op, k=k, to=r.choice([1, 2, j]))
        if op == "algebra":
            how = r.choice(["union", "intersection", "difference", "symmetric"])
            return self.run(op=op, k=k, j=j, to=r.randint(1, 2), how=how) if n + len(self.d.t[j - 1]) < 30 else None
        if op == "inplace":
            how = r.choice(["union", "intersection", "difference", "symmetric"])
            return self.run(op=op, k=k, j=j, how=how) if n + len(self.d.t[j - 1]) < 30 else None
        if op == "compare":
            return self.run(op=op, k=k, j=r.randint(1, 2))
        if op == "pair":
            return self.run(op=op, i=self.some(1), j=self.some(r.randint(1, 2)), p=r.randint(-1, self.top + 3))
        if op in ("new", "update"):
            if n > 5:
                return
            return self.run(op=op, k=k, l=[self.fresh() for _ in range(r.randint(0, self.max))])
        if op == "nested":
            s = [(i["b"], i["e"]) for i in self.d.rows(self.d.t[k - 1])]
            if len(set(s)) < len(s):
                return
        self.run(op=op, k=k)


def C33(run):
    for m in ("one", "data", "two", "pair"):
        run.replay("trees", run.generate("TreeGen", "Tree_%s.cfg" % m), play)
    traces = []
    for _ in range(run.n(700, 12000)):
        g = Maker(run.rng)
        for _ in range(run.rng.randint(8, 60)):
            g.step()
        if g.ev:
            traces.append(dict(ev=g.ev))
    run.validate("TreeTrace", traces)
