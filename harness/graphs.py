"""C40-C47: the chord graph builder (spec/Graph.tla)."""
import glob, itertools, os
import networkx as nx
from .lib import grid, outcome
from .notes import num
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder

U = 100
# two chords of seven notes with one hash(frozenset(...)) in CPython 3.12 (64 bit)
TWINS = ([6, 14, 15, 28, 29, 46, 51], [61, 79, 112, 114, 118, 122, 127])


def mknote(n):
    return MidiNote(pitch=n["p"], start_time=n["t"] / U, end_time=n["t"] / U + .11, velocity=n["v"], is_drum=n["d"])


def mkpiece(tracks):
    piece = MidiNoteSequences()
    for k, t in enumerate(tracks):
        ins = MidiInstrumentInfo(k, name="t%d" % k, is_drum=t["drum"])
        notes = [mknote(n) for n in t["notes"]]
        piece[k] = MidiNoteSequence(drum_events=notes, instrument=ins) if t["drum"] else MidiNoteSequence(notes=notes, instrument=ins)
    return piece


def unpiece(piece):
    return [dict(drum=bool(piece[k].instrument.is_drum),
                 notes=[dict(t=grid(n.start_time, U), p=num(n.pitch), v=num(n.velocity), d=bool(n.is_drum) and not piece[k].instrument.is_drum)
                        for n in piece[k].notes]) for k in piece]


def rows(x):
    l = x.tolist()
    return [[grid(v, 1) for v in r] for r in l] if l and isinstance(l[0], list) else [[grid(v, 1) for v in l]]


class GraphDriver:
    def __init__(self):
        self.b = MidiGraphBuilder()
        self.tok = {}
        self.started, self.taken = None, []

    def begin(self, e):
        """Start the delivery that the next graphs command will finish (builds may come in between)."""
        self.started = iter(self.b) if e.get("plain") else self.b.graphs(skip_label=e["skip"], is_sanity_check=e["sanity"])
        self.taken = list(itertools.islice(self.started, 1))

    def t(self, h):
        return self.tok.setdefault(h, len(self.tok) + 1) if isinstance(h, int) else -9

    def maps(self):
        b, t = self.b, self.t
        return dict(n2h=[[sorted(p), t(h)] for p, h in b.notes_to_hash.items()], h2n=[[t(h), sorted(p)] for h, p in b.hash_to_notes.items()],
                    h2i=[[t(h), num(i)] for h, i in b.hash_to_index.items()], i2h=[[num(i), t(h)] for i, h in b.index_to_hash.items()])

    def graph(self, g):
        return dict(nodes=[dict(id=self.t(u), nh=self.t(d.get("node_hash")), x=rows(d["attr"])) for u, d in g.nodes(data=True)],
                    edges=[[self.t(u), self.t(v), grid(d.get("weight"), 1)] for u, v, d in g.edges(data=True)])

    def tensor(self, p):
        e, w = p.edge_index.tolist(), p.edge_attr.view(-1).tolist()
        return dict(nh=[self.t(h) for h in p.node_hash], x=[rows(x) for x in p.x], src=e[0], dst=e[1], w=[grid(v, 1) for v in w])

    def held(self):
        return dict(subs=[self.graph(g) for g in self.b.sub_graphs], pyg=[self.tensor(p) for p in self.b.pyg_data], maps=self.maps())

    def do(self, e):
        return getattr(self, e["op"])(e)

    def build(self, e):
        piece = self.b.midi_sequences if e.get("own") else mkpiece(e["tracks"])
        if e.get("own") == "defaults":          # everything as documented
            kw = {}
        else:
            kw = dict(feature_vec_size=e["feat"], filter_single_notes=e["filter"], is_per_instrument=not e["merged"], is_include_velocity=e["vel"])
        _, res, _ = outcome(self.b.build, *(() if e.get("own") else (piece,)), **kw)
        return dict(self.held(), res=res, src=unpiece(piece))

    def graphs(self, e):
        def run():
            it = self.started or (iter(self.b) if e.get("plain") else
                                  self.b.graphs(skip_label=e["skip"], is_sanity_check=e["sanity"]))
            if "k" in e:               # look at the first k graphs and leave it at that
                return list(itertools.islice(it, e["k"]))
            return self.taken + list(it)
        l, res, _ = outcome(run)
        self.started, self.taken = None, []
        out = []
        for p in l or []:
            d = self.tensor(p)
            d["y"] = [num(v) for v in p.y.tolist()]
            lab = getattr(p, "label", None)
            d["label"] = [-1] if lab is None else [num(v) for v in lab]
            out.append(d)
        return dict(self.held(), res=res, out=out)

    def fresh(self, e):
        B, via = MidiGraphBuilder, e["via"]
        if via == "file":
            self.b = B.from_file(e["path"])
        else:
            piece = mkpiece(e["tracks"])
            one = piece[0] if via in ("one", "seq") else None
            self.b = dict(ctor=lambda: B(piece), pieces=lambda: B.from_midi_sequences(piece), one=lambda: B.from_midi_sequence(one),
                          seq=lambda: B(one))[via]()
        return self.held()

    def refuse(self, e):
        B, b = MidiGraphBuilder, self.b
        p = mkpiece([dict(drum=False, notes=[dict(t=t, p=60 + t, v=80, d=False) for t in (0, 10, 20)])])
        calls = [lambda: B().build(), lambda: b.build(p, feature_vec_size="12"), lambda: b.build(p, feature_vec_size=0),
                 lambda: b.build(p, feature_vec_size=129), lambda: b.build(p, feature_vec_size=-1), lambda: b.build(p, velocity_num_buckets=0),
                 lambda: b.build(p, velocity_num_buckets="8"), lambda: b.build(p, velocity_num_buckets=-3), lambda: b.build(p, default_trim_time="3"),
                 lambda: b.build(p, node_attr_type="Tensor"), lambda: b.build(p, filter_single_notes=1), lambda: b.build(p, tolerance=2.0),
                 lambda: b.build(p, tolerance=-.1), lambda: b.build(p, tolerance=1), lambda: b.build(p, is_include_velocity="yes"),
                 lambda: b.build_sequence("x"), lambda: b.build_sequence(None), lambda: b.build_sequence([p[0]]),
                 lambda: B.from_file("/nowhere/at all.mid"), lambda: B.from_file(os.path.dirname(__file__)), lambda: B.from_file(__file__),
                 lambda: B.from_midi_sequence(3), lambda: B.from_midi_sequence(MidiNoteSequence()), lambda: B.from_midi_sequence(p),
                 lambda: B.from_midi_sequences([p[0]]), lambda: B.from_midi_sequences(p[0]), lambda: B(feature_size=0), lambda: B(feature_size=128),
                 lambda: B(feature_size="12"), lambda: B("piece"), lambda: B(tolerance=-1), lambda: B(tolerance="x"), lambda: B([p])]
        before = self.held()
        _, res, _ = outcome(calls[e["how"] - 1])
        return dict(res=res, same=self.held() == before)

    def query(self, e):
        g = self.b.sub_graphs[e["g"] - 1]
        u, v = ([MidiNote(p, 0, 1) for p in l] if e["as"] == "notes" else list(l) for l in (e["u"], e["v"]))
        B = MidiGraphBuilder
        x = dict(out=[], yes=-1, maps=self.maps())
        if e["q"] == "neighbors":
            r, x["res"], _ = outcome(lambda: list(B.neighbors(g, u)))
            x["out"] = [self.t(h) for h in r or []]
        elif e["q"] == "connected":
            if e["as"] == "hash":
                u, v = hash(frozenset(u)), hash(frozenset(v))
            r, x["res"], _ = outcome(B.is_connected, g, u, v)
            x["yes"] = int(bool(r))
        elif e["q"] == "edge":
            r, x["res"], _ = outcome(B.get_edge_connected, g, e["u"], e["v"])
            x["out"] = [self.t(h) for h in r or ()]
        elif e["q"] == "merge":
            h = nx.DiGraph(g)
            names = [next((k for k, p in self.b.hash_to_notes.items() if p == frozenset(c)), None) for c in e["m"]]
            r, x["res"], _ = outcome(B.merge_nodes, h, names)
            if x["res"] == "ok":
                x.update(new=self.t(r), nodes=[self.t(k) for k in h.nodes], edges=[[self.t(a), self.t(b), grid(d.get("weight"), 1)] for a, b, d in h.edges(data=True)],
                         merged=[self.t(k) for k in h.nodes[r]["merged_nodes"]])
        return x


# ------------------------------------------------------------------ inputs
def tolerance(notes):
    s = sorted(n["t"] for n in notes)
    g = sorted(b - a for a, b in zip(s, s[1:]))
    if len(g) < 2:
        return 0
    at = 95 * (len(g) - 1)
    lo = at // 100
    return 100 * g[lo] + (at % 100) * (g[min(lo + 1, len(g) - 1)] - g[lo])


def ambiguous(notes):
    """Graph.tla: Ambiguous"""
    tol = tolerance(notes)
    for n in notes:
        if tol and (200 * n["t"]) % (2 * tol) == tol:
            return True
        k = (200 * n["t"] + tol) // (2 * tol) if tol else 0
        if tol and tol < 2 * U and (2 * k * tol) % (2 * U) == U:
            return True
    return False


def rtrack(rng, drum=.1, notes=12, chords=None):
    while True:
        if rng.random() < .05:
            return dict(drum=rng.random() < drum, notes=[])
        pool = [rng.randrange(0, 128) for _ in range(rng.randrange(1, 6))]
        grain = rng.choice([1, 2, 5, 10, 25, 50, 100])
        dense = rng.random() < .6
        l, t = [], rng.choice([0, 0, rng.randrange(0, 50)])
        for _ in range(rng.randrange(1, notes)):
            size = rng.choice([1, 1, 1, 2, 2, 3, 4]) if chords is None else rng.choice(chords)
            vel = rng.choice([None, None, 100])
            for _ in range(size):
                l.append(dict(t=t, p=rng.choice(pool) if size < 6 else rng.randrange(0, 128), v=vel or rng.choice([0, 1, 20, 64, 100, 127, rng.randrange(128)]),
                              d=rng.random() < .03))
            t += rng.choice([1, 1, 2, 3, 7]) * grain + (rng.randrange(0, 4) if dense else 0)
        if rng.random() < .3:
            rng.shuffle(l)
        d = rng.random() < drum
        if d:
            for n in l:
                n["d"] = False
        if not ambiguous(l):
            return dict(drum=d, notes=l)


def repeated(rng):
    """A few chords played over and over: connections far heavier than a short piece has."""
    pool = [rng.sample(range(128), rng.choice([1, 1, 2])) for _ in range(rng.choice([1, 2, 2, 3]))]
    gap = rng.choice([5, 20, 50])
    l = [dict(t=k * gap, p=p, v=rng.choice([40, 100]), d=False) for k in range(rng.randrange(30, 70)) for p in rng.choice(pool)]
    return dict(drum=False, notes=l)


def varied(rng, n):
    """A long piece of chords, hardly any of them twice."""
    l = []
    for k in range(n):
        l += [dict(t=10 * k, p=p, v=100, d=False) for p in rng.sample(range(128), 1 if rng.random() < .2 else 2)]
    return dict(drum=False, notes=l)


def large(rng, vel=None, merged=None, **_):
    """Builds far larger than those of rhistory."""
    d, ev = GraphDriver(), []
    if rng.random() < .8:
        tracks = [repeated(rng) for _ in range(rng.choice([1, 2]))]
    else:
        tracks = [varied(rng, rng.choice([60, 280]))] + [repeated(rng) for _ in range(rng.choice([0, 1]))]
    if any(ambiguous(t["notes"]) for t in tracks):
        return large(rng, vel, merged)
    e = dict(op="build", merged=rng.random() < .4 if merged is None else merged, vel=rng.random() < .5 if vel is None else vel,
             feat=rng.choice([4, 12]), filter=False, tracks=tracks)
    ev.append(dict(e, x=d.do(e)))
    g = dict(op="graphs", skip=False, sanity=False)
    ev.append(dict(g, x=d.do(g)))
    return dict(ev=ev)


def rhistory(rng, vel=None, merged=None, queries=0, wide=True):
    d, ev = GraphDriver(), []

    def step(e):
        ev.append(dict(e, x=d.do(e)))

    for _ in range(rng.randrange(1, 4)):
        m = rng.random() < .4 if merged is None else merged
        big = wide and rng.random() < .25
        feat = rng.choice([1, 2, 3] if big else [4, 7, 12])
        if big:
            tracks = [rtrack(rng, notes=4, chords=[1, 2, 3, 4]) for _ in range(rng.randrange(1, 3))]
        elif wide and rng.random() < .1:
            feat, tracks = 12, [rtrack(rng, notes=4, chords=[1, 14, 17])]
        else:
            tracks = [rtrack(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        step(dict(op="build", merged=m, vel=rng.random() < .5 if vel is None else vel, feat=feat,
                  filter=rng.random() < .2, tracks=tracks))
        if not ev[-1]["x"]["subs"]:
            continue
        chords = [c for _, c in ev[-1]["x"]["maps"]["h2n"]]
        for _ in range(queries):
            names = {k: c for k, c in ev[-1]["x"]["maps"]["h2n"]}
            gi = rng.randrange(len(d.b.sub_graphs))
            nodes = [sorted(d.b.hash_to_notes[h]) for h in d.b.sub_graphs[gi].nodes]

            def chord():
                r = rng.random()
                c = list(rng.choice(nodes) if r < .8 else rng.choice(chords) if r < .9 else [rng.randrange(128) for _ in range(rng.randrange(1, 4))])
                rng.shuffle(c)
                return c + ([c[0]] if rng.random() < .3 else [])
            e = dict(op="query", q=rng.choice(["neighbors", "connected", "connected", "edge", "merge"]), g=gi + 1, u=chord(), v=chord(), m=[])
            e["as"] = rng.choice(["list", "notes", "hash"] if e["q"] == "connected" else ["list", "notes"])
            if rng.random() < .6 and e["q"] in ("connected", "edge"):
                a, b = rng.choice(list(d.b.sub_graphs[gi].edges))
                e["u"], e["v"] = (sorted(d.b.hash_to_notes[h]) for h in ((a, b) if rng.random() < .5 else (b, a)))
            if e["q"] == "merge":
                e["m"] = rng.sample(nodes, rng.randrange(1, min(4, len(nodes)) + 1))
            step(e)
        held = len(ev[-1]["x"]["subs"]) if ev[-1]["op"] == "build" else 0
        if held > 1 and rng.random() < .4:
            step(dict(op="graphs", skip=rng.random() < .3, sanity=rng.random() < .3, k=rng.randrange(1, held)))
        g = dict(op="graphs", skip=rng.random() < .3, sanity=rng.random() < .3)
        if held and rng.random() < .15:          # a build while a delivery is under way
            if rng.random() < .3:
                g["plain"], g["skip"], g["sanity"] = True, False, False
            d.begin(g)
            step(dict(op="build", merged=rng.random() < .4 if merged is None else merged, vel=ev[-1]["vel"] if "vel" in ev[-1] else False,
                      feat=12, filter=False, tracks=[rtrack(rng, notes=6) for _ in range(rng.choice([1, 2]))]))
            step(g)
        elif rng.random() < .5:
            step(g)
    if rng.random() < .6:
        step(dict(op="graphs", skip=False, sanity=False, plain=True))
    if rng.random() < .2:
        step(dict(op="graphs", skip=False, sanity=True))
    return dict(ev=ev)


def recorded(run, cfgs, limit):
    """Run the builds of the specification's bounded model, each on a fresh builder and then a delivery."""
    out = []
    for cfg in cfgs:
        hs = [h[-1]["e"] for h in run.generate("GraphGen", "Graph_%s.cfg" % cfg) if h[-1]["e"]["op"] == "build"]
        if len(hs) > limit:
            hs = run.rng.sample(hs, limit)
        for e in hs:
            d = GraphDriver()
            ev = [dict(e, x=d.do(e))]
            g = dict(op="graphs", skip=False, sanity=False)
            ev.append(dict(g, x=d.do(g)))
            out.append(dict(ev=ev))
    return out


def real(run, k, merged=False):
    """Tracks of the repository's own sample files, onsets to the hundredth of a second."""
    from neural_graph_composer.midi_reader import MidiReader
    out, files = [], sorted(glob.glob("/repo/neural_graph_composer/dataset/**/*.mid", recursive=True), key=os.path.getsize)[:k]
    for f in files:
        piece, res, _ = outcome(MidiReader.read, f)
        if res != "ok":
            continue
        tracks = []
        for s in piece:
            q = piece[s]
            l = [dict(t=round(n.start_time * U), p=int(n.pitch), v=int(n.velocity), d=False) for n in q.notes][:300]
            if not ambiguous(l):
                tracks.append(dict(drum=bool(q.instrument.is_drum), notes=l))
        d, ev = GraphDriver(), []
        e = dict(op="build", merged=False, vel=True, feat=12, filter=False, tracks=tracks)
        ev.append(dict(e, x=d.do(e)))
        g = dict(op="graphs", skip=False, sanity=True)
        ev.append(dict(g, x=d.do(g)))
        out.append(dict(ev=ev))
    return out


def check(run, focus, cfgs, n, limit=800, files=True, **kw):
    traces = recorded(run, cfgs, run.n(limit, 10 ** 9))
    traces += [rhistory(run.rng, **kw) for _ in range(run.n(*n))]
    big = [large(run.rng, **kw) for _ in range(run.n(16, 200))]
    if files:
        traces += real(run, run.n(4, 12))
    run.validate("GraphTrace", traces, cfg="GraphTrace_%s.cfg" % focus, chunk=3000)
    run.validate("GraphTrace", big, cfg="GraphTrace_%s.cfg" % focus, chunk=20)


def C40(run):
    check(run, "walk", ["walk", "cut"], (300, 8000))


def C41(run):
    check(run, "maps", ["cut", "modes"], (300, 8000), limit=700)
    d = GraphDriver()
    e = dict(op="build", merged=False, vel=False, feat=12, filter=False,
             tracks=[dict(drum=False, notes=[dict(t=t, p=p, v=100, d=False) for t, c in ((0, TWINS[0]), (100, TWINS[1]), (300, [60])) for p in c])])
    run.validate("GraphTrace", [dict(ev=[dict(e, x=d.do(e))], key="twin-chords")], cfg="GraphTrace_maps.cfg")


def C42(run):
    check(run, "weights", ["walk", "cut"], (300, 8000))


def C43(run):
    check(run, "features", ["vel", "cut"], (300, 8000))


def C44(run):
    check(run, "tensor", ["walk", "modes"], (300, 8000))


def C45(run):
    check(run, "deliver", ["modes"], (300, 8000))


def C46(run):
    check(run, "modes", ["modes", "cut"], (300, 8000), limit=800)


def written(rng, path):
    """A small file of chords, and its tracks as the reader gives them."""
    from . import smf
    from neural_graph_composer.midi_reader import MidiReader
    tracks = []
    for k in range(rng.choice([1, 1, 2, 3])):
        c, l = (9 if rng.random() < .2 else k), []
        at = sorted(rng.sample(range(0, 400), rng.randrange(1, 10)))
        pool = [sorted(rng.sample(range(40, 80), rng.choice([1, 2, 3]))) for _ in range(4)]
        for t, nxt in zip(at, at[1:] + [500]):
            ch = rng.choice(pool)
            l += [dict(op="on", t=t, c=c, p=p, v=rng.randrange(1, 128)) for p in ch] + [dict(op="off", t=nxt, c=c, p=p, w=0) for p in ch]
        tracks.append(sorted(l, key=lambda e: (e["t"], e["op"] == "on")) + [dict(op="end", t=501)])
    with open(path, "wb") as f:
        f.write(smf.smf(50, tracks, None))
    return unpiece(MidiReader.read(path))


def C49(run):
    rng, traces = run.rng, []
    for i in range(run.n(500, 9000)):
        d, ev = GraphDriver(), []

        def step(**e):
            ev.append(dict(e, x=d.do(e)))
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < .3:
                step(op="refuse", how=rng.randrange(1, 34))
            path = os.path.join(run.tmp, "b%d%s" % (rng.randrange(4), rng.choice([".mid", ".midi"])))
            via = rng.choice(["ctor", "pieces", "one", "seq", "file"])
            if via == "file":
                tracks = written(rng, path)
            else:
                tracks = [rtrack(rng, drum=0 if via in ("one", "seq") else .1) for _ in range(1 if via in ("one", "seq") else rng.choice([1, 2, 3]))]
            if any(ambiguous(t["notes"]) for t in tracks) or via == "one" and not tracks[0]["notes"]:
                continue
            step(op="fresh", via=via, path=path, tracks=tracks)
            for _ in range(rng.randrange(1, 5)):
                r = rng.random()
                given = dict(merged=rng.random() < .4, vel=rng.random() < .5, feat=rng.choice([4, 7, 12]), filter=rng.random() < .2)
                if r < .25:
                    step(op="build", tracks=tracks, merged=False, vel=False, feat=12, filter=False, own="defaults")
                elif r < .5:
                    step(op="build", tracks=tracks, own="own", **given)
                elif r < .7:        # another piece, which may have no tracks at all
                    other = [rtrack(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
                    if not any(ambiguous(t["notes"]) for t in other):
                        step(op="build", tracks=other, **given)
                elif r < .85:
                    step(op="refuse", how=rng.randrange(1, 34))
                else:
                    step(op="graphs", skip=False, sanity=rng.random() < .3)
        if ev:
            traces.append(dict(ev=ev))
    run.validate("GraphTrace", traces, cfg="GraphTrace_own.cfg", chunk=3000)


# ---------------------------------------------------------------------- C48
def track(e):
    ins = MidiInstrumentInfo(3, name="t", is_drum=e["drum"])
    notes = [mknote(n) for n in e["notes"]]
    return MidiNoteSequence(drum_events=notes, instrument=ins) if e["drum"] else MidiNoteSequence(notes=notes, instrument=ins)


def ask(e):
    B, op = MidiGraphBuilder, e["op"]
    x = dict(out="ok", same=True, r=[])
    if op in ("rescale", "scale"):
        v = list(e["v"])
        if op == "rescale":
            kw = {} if (e["lo"], e["hi"]) == (32, 127) else dict(target_min_velocity=e["lo"], target_max_velocity=e["hi"])
            r, x["out"], _ = outcome(B.rescale_velocities, v, **kw)
        else:
            r, x["out"], _ = outcome(B.scale_relative_velocities, v, *(() if (e["num"], e["den"]) == (1, 1) else (e["num"] / e["den"],)))
        x.update(r=[num(k) for k in (r if r is not None else [])], same=v == e["v"])
        return dict(e, x=x)
    q = track(e)
    before = repr(q.notes)
    if op == "gaps":
        r, x["out"], _ = outcome(B.instrument_time_differences, q)
        x["r"] = [grid(v, U) for v in (r if r is not None else [])]
    elif op == "tolerance":
        r, x["out"], _ = outcome(B.compute_tolerance, q, *(() if e["pc"] == 95 else (e["pc"],)))
        x["r"] = [grid(r, 100 * U)] if x["out"] == "ok" else []
    else:
        r, x["out"], _ = outcome(B.compute_data, q, e["tol"] / U, e["filter"], **(dict(tolerance_auto=True) if e["auto"] else {}))
        if x["out"] == "ok":
            data, x["longest"] = r
            at = {id(n): i + 1 for i, n in enumerate(q.notes)}
            exact = e["auto"] or e["tol"] == 0
            x["groups"] = [dict(k=grid(k, U) if exact else 0, m=[at.get(id(n), -1) for n in l]) for k, l in data.items()]
    x["same"] = repr(q.notes) == before
    return dict(e, x=x)


def C48(run):
    rng = run.rng
    evs = list(run.generate("TracksGen"))
    limit = run.n(4000, 10 ** 9)
    short = [e for e in evs if "v" in e]            # all of these: they are few
    evs = [e for e in evs if "v" not in e]
    evs = [ask(e) for e in short + (rng.sample(evs, limit) if len(evs) > limit else evs)]
    for _ in range(run.n(2500, 40000)):
        op = rng.choice(["gaps", "tolerance", "groups", "groups", "rescale", "scale"])
        if op in ("rescale", "scale"):
            v = [rng.randrange(128) for _ in range(rng.choice([1, 1, 2, 3, 10, 40]))]
            v = [rng.choice(v[:2]) for _ in v] if rng.random() < .3 else v
            lo = rng.randrange(0, 127)
            lim = rng.choice([(32, 127), (32, 127), (lo, rng.randrange(lo, 128))])
            e = dict(op=op, v=v, lo=lim[0], hi=lim[1]) if op == "rescale" else dict(op=op, v=v, num=rng.choice([1, 1, 0, 2, 3, 7, 9]), den=rng.choice([1, 1, 2, 4, 8]))
        else:
            t = rtrack(rng, notes=rng.choice([3, 12, 40]))
            e = dict(op=op, notes=t["notes"], drum=t["drum"])
            e.update(dict(pc=rng.choice([95, 95, 50, 0, 100, 7])) if op == "tolerance" else {})
            e.update(dict(tol=rng.choice([0, 0, 1, 5, 20, 20, 100]), auto=rng.random() < .5, filter=rng.random() < .4) if op == "groups" else {})
        evs.append(ask(e))
    run.validate("TracksTrace", [dict(ev=[e]) for e in evs], chunk=4000)


def C47(run):
    check(run, "query", ["walk"], (300, 8000), limit=200, files=False, queries=8, wide=False)
