"""C18 C73: what is read off a piece (spec/Views.tla)."""
import copy, warnings
import numpy as np
import pretty_midi
from .lib import outcome
from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI

U = 64.


def whole(v, k=1):
    """k times v as an integer; anything that is no number shows."""
    v = float(v) * k
    return round(v) if np.isfinite(v) else -999999


def shown(m, k=1):
    return dict(w=m.shape[1], rows=[[p] + [whole(v, k) for v in m[p]] for p in range(m.shape[0]) if (m[p] != 0).any()])


class ViewDriver:
    def __init__(self):
        self.m = CustomPrettyMIDI(resolution=480)

    def do(self, e):
        op, m = e["op"], self.m
        if op == "inst":
            m.instruments.append(pretty_midi.Instrument(0, is_drum=e["drum"]))
        elif op == "note":
            m.instruments[e["i"] - 1].notes.append(pretty_midi.Note(e["v"], e["p"], e["s"] / U, e["e"] / U))
        elif op == "cc":
            m.instruments[e["i"] - 1].control_changes.append(pretty_midi.ControlChange(e["n"], e["v"], e["t"] / U))
        elif op == "clean":
            m.remove_invalid_notes()
            return [[[whole(n.start, U), whole(n.end, U), n.pitch, n.velocity] for n in i.notes] for i in m.instruments]
        elif op == "onsets":
            return [whole(t, U) for t in m.get_onsets()]
        elif op == "end":
            return [whole(m.get_end_time(), U)]
        elif op in ("roll", "chroma", "rollat", "chromaat"):
            f = m.get_chroma if op.startswith("chroma") else m.get_piano_roll
            kw = dict(fs=e["fs"], pedal_threshold=None if e["ped"] < 0 else e["ped"])
            if kw["fs"] == 100 and e["ped"] == 64:           # as it is by default
                kw = {}
            if "cols" not in e:
                return shown(f(**kw))
            return shown(f(times=np.array(e["cols"]) / e["fs"], **kw), 840)
        elif op == "hist":
            return [whole(v, 10000 if e["norm"] else U if e["dur"] else 1) for v in m.get_pitch_class_histogram(e["dur"], e["vel"], e["norm"])]
        elif op == "trans":
            return [whole(v, 10000 if e["norm"] else 1) for v in m.get_pitch_class_transition_matrix(e["norm"], e["th"] / U).reshape(-1)]
        elif op == "tempi":
            t, p = m.estimate_tempi()
            return [[whole(60 / a, U * 60), whole(b, 10000)] for a, b in zip(t, p)]
        elif op == "tempo":
            return [whole(60 / m.estimate_tempo(), U * 60)]
        elif op == "first":
            late = e["by"] / 1000
            if late:                                         # the piece as it would be, begun a little later
                m = copy.deepcopy(m)
                for i in m.instruments:
                    for n in i.notes:
                        n.start, n.end = n.start + late, n.end + late
                    for c in i.control_changes:
                        c.time += late
            return [whole(m.estimate_beat_start(candidates=e["n"]) - late, U)]
        elif op == "wave":
            w = m.synthesize(fs=e["fs"])
            return [len(w), whole(np.abs(w).max() if len(w) else 0, 1000)]
        return []


def recorded(evs):
    d, ev = ViewDriver(), []
    for e in evs:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x, res, err = outcome(d.do, e)
        if res != "ok" and e["op"] in ("tempo", "first") and err == "ValueError":
            x, res = [-1], "ok"
        if res != "ok":                                      # an answer nothing should give
            x, e = dict(w=-1, rows=[]) if "ped" in e else [], dict(e, failed=err)
            x = [[]] if e["op"] in ("clean", "tempi") else x
        ev.append(dict(e, x=x))
    return dict(ev=ev)


def rpiece(rng, asks):
    n, grid = rng.choice([0, 1, 1, 2, 2, 3]), rng.choice([1, 1, 4, 8, 16])
    at = lambda top: grid * rng.randint(0, top // grid)
    period = rng.choice([0, 0, 16, 24, 32])
    for i in range(1, n + 1):
        yield dict(op="inst", drum=rng.random() < .2)
        t = at(32)
        for _ in range(rng.choice([0, 1, 2, 4, 7])):
            if rng.random() < .25:
                yield dict(op="cc", i=i, t=at(150), n=rng.choice([64, 64, 64, 7]), v=rng.choice([0, 30, 63, 64, 90, 127]))
            s = max(0, t + rng.choice([-1, 0, 0, 1])) if period else at(120)
            t += period * rng.choice([1, 1, 2])
            d = 0 if rng.random() < .08 else rng.choice([1, 4, 16, 16, 32, 50])
            yield dict(op="note", i=i, s=s, e=max(0, s + d), p=rng.choice([60, 61, 62, 64, 72, rng.randint(0, 127)]), v=rng.randint(1, 127))
    for _ in range(rng.randint(3, 7)):
        op = rng.choice(asks + ("clean",))
        e = dict(op=op)
        if op in ("roll", "chroma", "rollat", "chromaat"):
            e["fs"] = rng.choice([2, 4, 8, 8, 16])
            e["ped"] = rng.choice([64, 64, 31, 128, -1])
            if op.endswith("at"):
                e["cols"], k = [], rng.choice([0, 0, 2])
                for _ in range(rng.randint(1, 8)):
                    e["cols"].append(k)
                    k += rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8])
            elif rng.random() < .05:
                e["fs"], e["ped"] = 100, 64
        elif op == "hist":
            e.update(dur=rng.random() < .5, vel=rng.random() < .5, norm=rng.random() < .5)
        elif op == "trans":
            e.update(th=rng.choice([1, 2, 4, 16, 64]), norm=rng.random() < .5)
        elif op == "first":
            e["n"], e["by"] = rng.choice([1, 2, 10]), rng.choice([0, 0, rng.randint(1, 30)])
        elif op == "wave":
            e["fs"] = rng.choice([1000, 2000])
        yield e


SHOWN = ("onsets", "end", "roll", "chroma", "rollat", "chromaat", "wave", "clean")
COUNTED = ("hist", "trans", "tempi", "tempo", "first")


def views(run, asks):
    rng = run.rng
    hs = [[s["e"] for s in h] for h in run.generate("ViewsGen")]
    hs = [h for h in hs if h and h[-1]["op"] in asks]
    few = run.n(4000, 40000)
    if len(hs) > few:
        hs = rng.sample(hs, few)
    run.validate("ViewsTrace", [recorded(h) for h in hs] + [recorded(list(rpiece(rng, asks))) for _ in range(run.n(2500, 40000))])


def C18(run):
    views(run, SHOWN)


def C73(run):
    views(run, COUNTED)
