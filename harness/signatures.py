"""C04: signature lists and lookups of a piece (spec/Signatures.tla)."""
from .lib import grid
from .notes import num
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature
from neural_graph_composer.midi.midi_key_signature import MidiKeySignature, KeySignatureType

U = 64


def mode(m):
    return {KeySignatureType.MAJOR: 0, KeySignatureType.MINOR: 1}.get(m, -1)


def sig(kind, v):
    if kind == "ts":
        return MidiTimeSignature(midi_time=v["t"] / U, numerator=v["a"], denominator=v["b"])
    if kind == "ks":
        return MidiKeySignature(midi_time=v["t"] / U, midi_key=v["b"], midi_mode=v["a"])
    return MidiTempoSignature(midi_time=v["t"] / U, qpm=float(v["a"]), resolution=v["b"])


def unsig(kind, s):
    if kind == "ts":
        a, b = s.numerator, s.denominator
    elif kind == "ks":
        a, b = mode(s.mode), s.midi_key
    else:
        a, b = grid(s.qpm, 1), s.resolution
    return dict(t=grid(s.midi_time, U), a=num(a), b=num(b))


def lists(p):
    return dict(ts=[unsig("ts", s) for s in p.time_signatures], ks=[unsig("ks", s) for s in p.key_signatures],
                te=[unsig("te", s) for s in p.tempo_signatures])


class SigDriver:
    def __init__(self):
        self.p = {1: MidiNoteSequences(), 2: MidiNoteSequences()}

    def apply(self, e):
        p, op, kind = self.p[e["k"]], e["op"], e.get("kind")
        if op == "piece":
            self.p[e["k"]] = MidiNoteSequences(time_signatures=[sig("ts", v) for v in e["l"]["ts"]],
                                               key_signatures=[sig("ks", v) for v in e["l"]["ks"]],
                                               tempo_signatures=[sig("te", v) for v in e["l"]["te"]])
        elif op == "add":
            dict(ts=p.add_time_signatures, ks=p.add_key_signatures, te=p.add_tempo_signature)[kind](sig(kind, e["v"]))
        elif op == "ask":
            if kind == "ts":
                return [num(x) for x in p.time_signature(e["t"] / U)]
            if kind == "ks":
                m, k = p.key_signature(e["t"] / U)
                return [mode(m), num(k)]
            return [num(x) for x in p.tempo_signature(e["t"] / U)]
        elif op == "initial":
            return [grid(p.initial_tempo(), 1)]
        elif op == "ofseq":
            q = MidiNoteSequence()
            before = q.initial_tempo()
            q.tempo_signature.extend(sig("te", v) for v in e["l"])
            return [grid(q.initial_tempo(), 1) if before == 120 else -1]
        elif op in ("upto", "loose"):
            if op == "loose":
                l = [sig(kind, v) for v in e["l"]]
                p = MidiNoteSequences(**dict(ts=dict(time_signatures=l), ks=dict(key_signatures=l), te=dict(tempo_signatures=l))[kind])
            f = dict(ts=p.slice_time_signatures, ks=p.slice_key_signatures, te=p.slice_tempo_signature)[kind]
            l = list(f() if e["t"] == -1 and e.get("sort", True) else f(None if e["t"] == -1 else e["t"] / U, sort_first=e.get("sort", True)))
            return [unsig(kind, s) for s in l]
        return []

    def do(self, e):
        r = self.apply(e)
        return dict(res=r, all=[lists(self.p[1]), lists(self.p[2])])


def play(cmds):
    d = SigDriver()
    return [d.do(e) for e in cmds]


def C04(run):
    global U
    for k in ("ts", "ks", "te"):
        run.replay("signatures " + k, run.generate("SignaturesGen", "Signatures_%s.cfg" % k), play)
    rng, traces = run.rng, []
    for _ in range(run.n(300, 6000)):
        d, ev = SigDriver(), []
        U = rng.choice([64, 64, 64, 1000, 20000])     # changes may be that near to each other
        pool = [0] + [rng.randrange(0, 400) for _ in range(4)]

        def value(kind, t=None):
            t = rng.choice(pool + [rng.randrange(0, 2000)]) if t is None else t
            a, b = dict(ts=(rng.randrange(1, 13), rng.choice([1, 2, 4, 8, 16])), ks=(rng.randrange(2), rng.randrange(12)),
                        te=(rng.randrange(20, 300), rng.choice([96, 220, 480])))[kind]
            return dict(t=t, a=a, b=b)

        for _ in range(rng.randrange(3, 40)):
            k, kind, r = rng.choice([1, 1, 2]), rng.choice(["ts", "ks", "te"]), rng.random()
            now = lists(d.p[k])[kind]
            if r < .04:
                e = dict(op="piece", k=k, l={x: sorted((value(x) for _ in range(rng.randrange(0, 3))), key=lambda v: v["t"])
                                             for x in ("ts", "ks", "te")})
                if any(a["t"] == b["t"] for x in e["l"].values() for a, b in zip(x, x[1:])):
                    continue
            elif r < .5:
                e = dict(op="add", k=k, kind=kind, v=value(kind))
            elif r < .54:
                l = [value(kind, t) for t in rng.sample(range(300), rng.randint(1, 5))]
                e = dict(op="loose", k=k, kind=kind, l=l, t=rng.choice([-1, 10, 150, 300]), sort=rng.random() < .5)
            elif r < .8:
                t = max(0, rng.choice(now)["t"] + rng.choice([-1, 0, 0, 1, 50])) if now else rng.choice(pool)
                e = dict(op="ask", k=k, kind=kind, t=t)
            elif r < .9 and now:
                e = dict(op="upto", k=k, kind=kind, t=rng.choice([-1, 0, rng.choice(now)["t"], 100000]), sort=rng.random() < .5)
            else:
                e = dict(op="initial", k=k) if rng.random() < .8 else \
                    dict(op="ofseq", k=k, kind="te", l=sorted((value("te") for _ in range(rng.randrange(3))), key=lambda v: v["t"]))
            ev.append(dict(e, x=d.do(e)))
        if ev:
            traces.append(dict(ev=ev))
    U = 64
    run.validate("SignaturesTrace", traces)
