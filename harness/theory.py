"""C70, C71: music theory (spec/Theory.tla); C72: encodings (spec/Rolls.tla)."""
import copy
import numpy as np
import pretty_midi
from .lib import outcome
from neural_graph_composer.midi.midi_scales import MusicTheory as M, Interval, ScaleType
from neural_graph_composer.utils import np_onehot, pretty_midi_to_one_hot

NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]


class Asker:
    """Asks the library; keeps its answers, so that they can be spoilt."""

    def __init__(self):
        self.last = []

    @staticmethod
    def root(r):
        return dict(int=lambda k: k, name=lambda k: NAMES[k], lower=lambda k: NAMES[k].lower(), text=lambda k: k)[r[0]](r[1])

    @staticmethod
    def scale(e):
        return ScaleType[e["scale"].upper()] if e["as"] == "enum" else e["scale"]

    def do(self, e):
        v, res, err = outcome(getattr(self, e["op"]), e)
        return dict(ok=1, v=v) if res == "ok" else dict(ok=0)

    def keep(self, v):
        self.last.append(v)
        return copy.deepcopy(v)

    def spoil(self, e):
        for v in self.last:
            if isinstance(v, list):
                v.append(99)
                v[0] = 77
        self.last = []
        return 0

    def notes(self, e): return self.keep(M.notes_from_scale(self.root(e["root"]), self.scale(e)))
    def triads(self, e): return self.keep(M.triads_from_scale(self.root(e["root"]), self.scale(e)))
    def named(self, e):
        v = M.triads_from_scale_tuple(self.root(e["root"]), self.scale(e))
        r = [[list(n), q] for n, q in v]
        self.last += [v] + [n for n, _ in v]
        return r

    def pattern(self, e):
        s = self.scale(e)
        t = sorted(i.value for i in M.intervals_from_scale(s))
        return [t, list(M.scales[s if not isinstance(s, str) else ScaleType(s)])]

    def onscale(self, e): return self.keep(M.chord_from_scale(self.root(e["root"]) + e["chord"], list(NAMES)))
    def pitches(self, e):
        return self.keep(M.chord_pitch_from_interval(self.root(e["root"]), [i if e["as"] == "text" else Interval[i] for i in e["iv"]]))

    def steps(self, e): return self.keep(M.get_chord_intervals(e["chord"]))
    def mapped(self, e): return [i.value for i in M.chord_intervals_mapping[e["chord"]]]
    def name(self, e):
        if e["as"] == "tuple":                                # this one takes lists only
            return M.get_chord_name_from_intervals(tuple(e["d"]))
        return M.get_chord_name(list(e["d"]))

    def name2(self, e): return M.get_chord_name_from_intervals((tuple if e["as"] == "tuple" else list)(e["d"]))
    def badname(self, e):
        a = dict(text="34", floats=[3.0, 4.0], none=None, strings=["3", "4"])[e["how"]]
        one = outcome(M.get_chord_name, a)
        two = outcome(M.get_chord_name_from_intervals, a)
        if one[1] != "ok" and two[1] != "ok":
            raise ValueError
        return "accepted"

    def roundtrip(self, e):
        d = M.get_chord_intervals(e["chord"])
        a, b = M.get_chord_name(list(d)), M.get_chord_name_from_intervals(tuple(d))
        return a if a == b else [a, b]

    def split(self, e): return list(M.compound_interval_to_base(e["k"]))
    def join(self, e): return M.base_to_compound_interval(e["k"], e["o"])
    def semitones(self, e): return self.iv(M.from_semitones(e["k"]))
    @staticmethod
    def iv(i):
        return i.value if isinstance(i, Interval) else "not an interval"

    def add(self, e): return self.iv(M.compound_interval_from_bases(Interval(e["a"]), Interval(e["b"])))
    def bases(self, e):
        i = Interval(e["k"])
        a, b = M.bases(i), i.bases()
        return sum(a) if tuple(a) == tuple(b) else [list(a), list(b)]

    def inverse(self, e): return M.inverse_compound_interval(Interval(e["k"]))
    def note(self, e): return M.pitch_to_note(e["k"])
    def value(self, e): return Interval[e["iv"]].value


def theory(run, area, n):
    rng = run.rng
    gen = run.generate("TheoryGen", "Theory_%s.cfg" % area)
    run.replay("Theory", gen, lambda c: [Asker().do(e) for e in c])
    pool = [h[0]["e"] for h in gen]
    by = {}
    for e in pool:
        by.setdefault(e["op"], []).append(e)
    traces = []
    for _ in range(run.n(*n)):
        a, ev = Asker(), []
        few = [rng.choice(by[rng.choice(list(by))]) for _ in range(4)]
        for _ in range(rng.randint(2, 14)):
            e = rng.choice(few) if rng.random() < .7 else rng.choice(pool)
            if rng.random() < .35:
                e = dict(op="spoil")
            ev.append(dict(e, x=a.do(e)))
        traces.append(dict(ev=ev))
    run.validate("TheoryTrace", traces)


def C70(run):
    theory(run, "scales", (400, 6000))


def C71(run):
    theory(run, "chords", (400, 6000))


# ------------------------------------------------------------------ encodings
DT = dict(bool=bool, float=np.float32, int=np.int64)


def shown(a, extra):
    a = np.asarray(a)
    other = int(((a != 0) & (a != 1)).sum())
    return dict(out="ok", shape=list(a.shape), other=other, ones=[list(map(int, z)) for z in np.argwhere(a == 1)] if a.ndim == 2 else [], **extra)


def onehot(e, rng):
    ix = list(e["ix"])
    arg = np.array(ix, dtype=np.int64) if rng.random() < .5 else list(ix)
    keep = copy.deepcopy(arg)
    kind = rng.choice(list(DT))
    v, res, err = outcome(np_onehot, arg, e["depth"], DT[kind]) if kind != "bool" or rng.random() < .5 else outcome(np_onehot, arg, e["depth"])
    x = dict(out=res, err=err)
    if res == "ok":
        x = shown(v, dict(same=list(arg) == list(keep), dtype=[k for k, d in DT.items() if v.dtype == np.dtype(d)][0] if v.dtype in [np.dtype(d) for d in DT.values()] else "?"))
    return dict(op="onehot", ix=ix, depth=e["depth"], dtype=kind, x=x)


def piece(e):
    pm = pretty_midi.PrettyMIDI()
    for k, i in enumerate(e["piece"]):
        ins = pretty_midi.Instrument(program=k, is_drum=i.get("drum", False))
        ins.notes = [pretty_midi.Note(velocity=1 + (j * 37) % 127, pitch=n["p"], start=n["s"] / 64, end=n["e"] / 64) for j, n in enumerate(i["notes"])]
        ins.pitch_bends = [pretty_midi.PitchBend(5, t / 64) for t in i["bends"]]
        ins.control_changes = [pretty_midi.ControlChange(7, 5, t / 64) for t in i["ccs"]]
        pm.instruments.append(ins)
    return pm


def roll(e):
    pm = piece(e)
    def state():
        return [[(n.pitch, n.velocity, n.start, n.end) for n in i.notes] + [(b.pitch, b.time) for b in i.pitch_bends] for i in pm.instruments]
    was = state()
    v, res, err = outcome(pretty_midi_to_one_hot, pm, e["fs"]) if e["fs"] != 100 else outcome(pretty_midi_to_one_hot, pm)
    return dict(e, x=shown(v, dict(same=state() == was)) if res == "ok" else dict(out=res, err=err))


def rpiece(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        notes, few = [], rng.sample(range(128), 3)
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            s = rng.randint(0, 640)
            notes.append(dict(s=s, e=s + rng.choice([0, 1, 1, 2, 5, 16, 64, 200]), p=rng.choice(few)))
            if rng.random() < .4:                             # struck again the moment it ends
                notes.append(dict(s=notes[-1]["e"], e=notes[-1]["e"] + 9, p=notes[-1]["p"]))
        rng.shuffle(notes)
        out.append(dict(notes=notes, bends=[rng.randint(0, 900)] if rng.random() < .2 else [], ccs=[rng.randint(0, 900)] if rng.random() < .2 else [], drum=rng.random() < .2))
    return out


def C72(run):
    rng = run.rng
    gen = run.generate("RollsGen")
    if run.quick and len(gen) > 3000:
        gen = rng.sample(gen, 3000)
    traces = [dict(ev=[onehot(e, rng) if e["op"] == "onehot" else roll(e)]) for e in gen]
    for _ in range(run.n(1500, 20000)):
        d = rng.choice([1, 2, 5, 12, 127, 128])
        traces.append(dict(ev=[onehot(dict(ix=[rng.randint(0, d if rng.random() < .05 else d - 1) for _ in range(rng.choice([0, 1, 2, 5, 20]))], depth=d), rng)]))
        traces.append(dict(ev=[roll(dict(op="roll", piece=rpiece(rng), fs=rng.choice([1, 4, 16, 50, 100, 100, 128])))]))
    run.validate("RollsTrace", traces)
