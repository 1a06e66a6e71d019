"""C30 sorted dictionary, C31 interval dictionary, C32 intervals, C53 node-index mapper."""
from .lib import outcome, quiet
from neural_graph_composer.midi.sorted_dict import SortedDict
from neural_graph_composer.midi.sorted_interval_dict import SortedIntervalDict
from neural_graph_composer.midi.Interval import Interval
import copy as copymod
import pickle


class MapDriver:
    """Performs the commands of SortedMap.tla on the real dictionaries."""

    def __init__(self, interval):
        self.interval = interval
        self.cls = SortedIntervalDict if interval else SortedDict
        self.cur, self.oth = self.cls(), self.cls()
        self.ncopy = 0

    def key(self, k):
        return Interval(*k) if self.interval else k

    def unkey(self, k):
        return [k.start, k.end] if self.interval else k

    def pairs(self, ps):
        return [(self.key(k), v) for k, v in ps]

    def view(self, d):
        ks = list(d.keys())
        vals = list(d.values())
        items = list(d.items())
        it = list(d)
        consistent = items == list(zip(ks, vals)) and it == ks and all(k in d and d[k] == v for k, v in items)
        rev = list(reversed(d)) if not self.interval else list(reversed(ks))
        return dict(keys=[self.unkey(k) for k in ks] if consistent else ["inconsistent views"],
                    vals=vals, rev=[self.unkey(k) for k in rev], len=len(d))

    def apply(self, e):
        d, op = self.cur, e["op"]
        k = self.key(e["k"]) if "k" in e else None
        if op == "set":
            d[k] = e["v"]
        elif op == "del":
            del d[k]
        elif op == "get":
            return ["val", d[k]]
        elif op == "getdef":
            return ["val", d.get(k, e["v"])]
        elif op == "pop":
            return ["val", d.pop(k)]
        elif op == "popdef":
            return ["val", d.pop(k, e["v"])]
        elif op == "popitem":
            kk, v = d.popitem() if self.interval or e["last"] == 1 else d.popitem(last=False)
            return ["item", self.unkey(kk), v]
        elif op == "setdefault":
            return ["val", d.setdefault(k, e["v"])]
        elif op == "update":
            d.update(self.pairs(e["ps"]))
        elif op == "new":
            ps = self.pairs(e["ps"])
            self.cur = self.cls(ps)
        elif op == "clear":
            d.clear()
        elif op == "copy":
            self.ncopy += 1
            c = [lambda x: x.copy(), copymod.copy, copymod.deepcopy, lambda x: self.cls(x),
                 lambda x: pickle.loads(pickle.dumps(x))][self.ncopy % 5](d)
            # work goes on on the copy or on the original, alternately
            self.cur, self.oth = (c, d) if self.ncopy % 2 else (d, c)
        elif op == "swap":
            self.cur, self.oth = self.oth, self.cur
        elif op == "range":
            a = None if e["a"] == -9999 else e["a"]
            b = None if e["b"] == 9999 else e["b"]
            r = d[a:b]
            return ["range", [self.unkey(x) for x in r.keys()], list(r.values())]
        elif op == "delpos":
            del d[e["a"]:e["b"]]
        elif op == "bad":
            bad = [3, "x", (1, 2), 2.5, None, frozenset()][len(d) % 6]
            if e["how"] == "set":
                d[bad] = 1
            elif e["how"] == "get":
                return ["val", d[bad]]
            else:
                del d[bad]
        return ["none"]

    def do(self, e):
        res, status, ex = outcome(self.apply, e)
        if status == "raise":
            res = [ex]
        v, status, ex = outcome(lambda: (self.view(self.cur), self.view(self.oth)))
        if status == "raise":
            return dict(res=res, cur=dict(keys=["views raise " + ex], vals=[], rev=[], len=-1), oth=dict(keys=[], vals=[], rev=[], len=-1))
        return dict(res=res, cur=v[0], oth=v[1])


def play_map(interval):
    def play(cmds):
        d = MapDriver(interval)
        return [d.do(e) for e in cmds]
    return play


def rand_cmd(rng, interval, keys):
    def key():
        return rng.choice(keys)
    v = rng.randrange(5)
    if interval:
        op = rng.choice(["set"] * 5 + ["del", "del", "get", "pop", "popitem", "setdefault", "range", "range", "range",
                                       "update", "bad", "delpos"] + ["new", "clear"][:rng.random() < .1 and 2 or 0])
    else:
        op = rng.choice(["set"] * 6 + ["del", "del", "get", "getdef", "pop", "popdef", "popitem", "setdefault", "update",
                                       "copy", "swap"] + (["new", "clear"] if rng.random() < .15 else []))
    e = dict(op=op)
    if op in ("set", "del", "get", "getdef", "pop", "popdef", "setdefault"):
        e["k"] = key()
    if op in ("set", "getdef", "popdef", "setdefault"):
        e["v"] = v
    if op == "popitem":
        e["last"] = 0 if interval else rng.randrange(2)
    if op in ("update", "new"):
        e["ps"] = [[key(), rng.randrange(9)] for _ in range(rng.randrange(5))]
    if op == "range":
        e["a"] = rng.choice([-9999] + list(range(-2, 22)))
        e["b"] = rng.choice([9999] + list(range(-2, 22)))
    if op == "delpos":
        e["a"] = rng.randrange(4)
        e["b"] = e["a"] + rng.randrange(3)
    if op == "bad":
        e["how"] = rng.choice(["set", "get", "del"])
    return e


def random_maps(run, interval, ntraces, length):
    rng = run.rng
    traces = []
    for _ in range(ntraces):
        n = rng.choice([3, 6, 12])
        if interval:
            keys = []
            for _ in range(n):
                a = rng.randrange(16)
                keys.append([a, a + rng.choice([0, 0, 1, 2, 5, 9])])
        else:
            keys = [rng.randrange(-50, 50) for _ in range(n)]
        d = MapDriver(interval)
        ev = []
        for _ in range(rng.randrange(3, length)):
            e = rand_cmd(rng, interval, keys)
            if e["op"] == "range" and e["a"] > e["b"]:
                e["a"], e["b"] = e["b"], e["a"]
            ev.append(dict(e, x=d.do(e)))
        traces.append(dict(ev=ev))
    return traces


def C30(run):
    run.replay("SortedDict", run.generate("SortedMapGen"), play_map(False))
    run.validate("SortedMapTrace", random_maps(run, False, run.n(300, 6000), run.n(40, 80)))


def C31(run):
    run.replay("SortedIntervalDict", run.generate("SortedMapGen", "IntervalMapGen.cfg"), play_map(True))
    run.validate("SortedMapTrace", random_maps(run, True, run.n(300, 6000), run.n(40, 80)), cfg="IntervalMapTrace.cfg")


class Likeness:
    def __init__(self, start, end):
        self.start, self.end = start, end


def interval_event(e, f=lambda x: x, g=lambda x: x):
    def enc(i):
        return [] if i is None else [g(i.start), g(i.end)]

    def order(a, o):
        def ask(h):
            r, status, ex = outcome(h)
            return int(status == "ok" or ex != "TypeError")
        return [ask(lambda: a < o), ask(lambda: a <= o), ask(lambda: a > o), ask(lambda: a >= o)]

    def look():
        a = Interval(*[f(x) for x in e["a"]])
        if e["op"] == "member":
            return {"in": int(f(e["p"]) in a)}
        if e["op"] == "stranger":
            o = dict(tuple=(a.start, a.end), number=a.start, text="x", none=None, slice=slice(a.start, a.end),
                     likeness=Likeness(a.start, a.end))[e["w"]]
            return dict(eq=int(a == o), ne=int(a != o), order=order(a, o))
        b = Interval(*[f(x) for x in e["b"]])
        return dict(ov=int(a.overlaps(b)), vo=int(b.overlaps(a)), inter=enc(a.intersection(b)),
                    retni=enc(b.intersection(a)), union=enc(a.union(b)), noinu=enc(b.union(a)),
                    eq=int(a == b and not a != b), lt=int(a < b), le=int(a <= b), gt=int(a > b), ge=int(a >= b),
                    hashok=int(a != b or hash(a) == hash(b)))
    r, status, ex = outcome(look)
    return r if status == "ok" else {"in": -1, "ov": -1, "vo": -1, "raised": ex}


def C32(run):
    beh = run.generate("IntervalGen")
    run.replay("Interval", beh, lambda cmds: [interval_event(e) for e in cmds])
    traces = []
    for _ in range(run.n(60, 1500)):
        ev = []
        half = run.rng.random() < .5      # half-integer bounds, scaled to integers for the specification
        f, g = ((lambda x: x / 2), (lambda x: int(x * 2))) if half else ((lambda x: x), (lambda x: x))
        for _ in range(20):
            def iv():
                a = run.rng.randrange(-20, 40)
                return [a, a + run.rng.choice([0, 0, 1, 2, 3, 8, 30])]
            a, b = iv(), iv()
            if run.rng.random() < .4:
                s = run.rng.choice(a)
                b = [s, s + run.rng.choice([0, 1, 5])]
            e = dict(op="pair", a=a, b=b) if run.rng.random() < .8 else dict(
                op="member", a=a, p=run.rng.choice([a[0] - 1, a[0], a[1], a[1] + 1, run.rng.randrange(-20, 60)]))
            ev.append(dict(e, x=interval_event(e, f, g)))
        traces.append(dict(ev=ev))
    run.validate("IntervalTrace", traces)


class MapperDriver:
    def __init__(self):
        from neural_graph_composer.midi_dataset import NodeHashIndexMapper
        self.m = [NodeHashIndexMapper() for _ in range(3)]

    def apply(self, e):
        m = self.m[e["m"] - 1]
        if e["op"] == "add":
            m.add_node_hash(e["h"])
        elif e["op"] == "merge":
            m.merge_with(self.m[e["o"] - 1])
        elif e["op"] == "index":
            return ["val", m.get_index(e["h"])]
        elif e["op"] == "hash":
            return ["val", m.get_node_hash(e["i"])]
        return ["none"]

    def look(self, m, universe):
        ids = []
        while True:
            r, status, ex = outcome(m.get_node_hash, len(ids))
            if status == "raise":
                break
            ids.append(r)
            if len(ids) > 200:
                break
        inv = []
        for h in ids:
            r, status, ex = outcome(m.get_index, h)
            inv.append(r if status == "ok" else ex)
        # an identity with an index but not listed, or published dictionaries that disagree
        for h in universe:
            r, status, ex = outcome(m.get_index, h)
            if status == "ok" and h not in ids:
                ids.append("unlisted")
        if dict(m.hash_to_index) != {h: i for i, h in enumerate(ids)} or \
                dict(m.index_to_hash) != {i: h for i, h in enumerate(ids)}:
            inv.append("published mappings disagree")
        return dict(ids=ids, inv=inv)

    def do(self, e):
        res, status, ex = outcome(self.apply, e)
        if status == "raise":
            res = [ex]
        return dict(res=res, all=[self.look(m, range(10, 30)) for m in self.m])


def C53(run):
    def play(cmds):
        d = MapperDriver()
        return [d.do(e) for e in cmds]
    run.replay("NodeHashIndexMapper", run.generate("MapperGen"), play)
    traces = []
    for _ in range(run.n(150, 2500)):
        d, ev = MapperDriver(), []
        for _ in range(run.rng.randrange(3, 40)):
            op = run.rng.choice(["add", "add", "add", "merge", "index", "hash"])
            e = dict(op=op, m=run.rng.randrange(1, 4))
            if op in ("add", "index"):
                e["h"] = run.rng.randrange(10, 24)
            if op == "merge":
                e["o"] = run.rng.randrange(1, 4)
            if op == "hash":
                e["i"] = run.rng.randrange(0, 12)
            ev.append(dict(e, x=d.do(e)))
        traces.append(dict(ev=ev))
    run.validate("MapperTrace", traces)
