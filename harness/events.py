"""C24 controllers and bends, C25 signatures and instruments, as values (spec/Events.tla)."""
from fractions import Fraction
from .lib import grid, outcome
from .notes import num, U
from neural_graph_composer.midi.midi_control_change import MidiControlChange, MidiBaseControlChange
from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature
from neural_graph_composer.midi.midi_key_signature import MidiKeySignature
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo

TIME = dict(cc="cc_time", pb="midi_time", te="midi_time", ts="midi_time", ks="midi_time")
FIELD = dict(st="quantized_step", qs="quantized_start_step", qe="quantized_end_step", seq="seq", pr="program", ins="instrument")


def make(a):
    k = a["k"]
    if k == "cc":
        return MidiControlChange(a["n"], a["v"], cc_time=a["t"] / U, program=a["pr"], instrument=a["ins"], is_drum=bool(a["dr"]),
                                 quantized_step=a["st"], quantized_start_step=a["qs"], quantized_end_step=a["qe"])
    if k == "pb":
        return MidiPitchBend(a["a"], midi_time=a["t"] / U, program=a["pr"], instrument=a["ins"], is_drum=bool(a["dr"]))
    if k == "te":
        q, r, t = a["q2"] / 2, a["res"], a["t"] / U
        q = int(q) if q == int(q) and a["t"] % 250 else q
        return MidiTempoSignature(midi_time="1" if a["bad"] == 3 else t, qpm="120" if a["bad"] == 1 else q,
                                  resolution=float(r) if a["bad"] == 2 else r)
    if k == "ts":
        return MidiTimeSignature(midi_time=a["t"] / U, numerator=float(a["nu"]) if a["bad"] == 1 else a["nu"],
                                 denominator=str(a["de"]) if a["bad"] == 2 else a["de"])
    if k == "ks":
        return MidiKeySignature(midi_time=a["t"] / U, midi_key=a["key"], midi_mode=a["mode"])
    if k == "in":
        return MidiInstrumentInfo("9" if a["bad"] == 1 else a["i"], 5 if a["bad"] == 2 else a["name"], 1 if a["bad"] == 3 else bool(a["dr"]))
    return MidiBaseControlChange(a["n"], a["d"])


def standard(k, how):
    if k in ("cc", "pb"):
        return MidiControlChange(7, 100) if k == "cc" else MidiPitchBend(100)
    c = dict(te=MidiTempoSignature, ts=MidiTimeSignature, ks=MidiKeySignature)[k]
    if how and k == "te":
        return c(midi_time=None, qpm=None, resolution=None)
    return c()


def proj(o):
    if isinstance(o, MidiControlChange):
        return dict(k="cc", n=num(o.cc_number), v=num(o.cc_value), t=grid(o.cc_time, U), pr=num(o.program), ins=num(o.instrument), dr=int(o.is_drum),
                    st=num(o.quantized_step), qs=num(o.quantized_start_step), qe=num(o.quantized_end_step), seq=num(o.seq))
    if isinstance(o, MidiPitchBend):
        return dict(k="pb", a=num(o.amount), t=grid(o.midi_time, U), pr=num(o.program), ins=num(o.instrument), dr=int(o.is_drum))
    if isinstance(o, MidiTempoSignature):
        return dict(k="te", t=grid(o.midi_time, U), q2=grid(o.qpm, 2), res=num(o.resolution), seq=num(o.seq))
    if isinstance(o, MidiTimeSignature):
        return dict(k="ts", t=grid(o.midi_time, U), nu=num(o.numerator), de=num(o.denominator), seq=num(o.seq))
    if isinstance(o, MidiKeySignature):
        return dict(k="ks", t=grid(o.midi_time, U), key=num(o.midi_key), mode=o.mode.name, seq=num(o.seq))
    if isinstance(o, MidiInstrumentInfo):
        return dict(k="in", i=num(o.instrument_num), name=o.name, dr=int(o.is_drum))
    return dict(k="base", n=num(o.cc_number), d=o.description)


def frac(x):
    f = Fraction(float(x)).limit_denominator(1000000)
    return [f.numerator, f.denominator] if abs(float(f) - x) < 1e-12 else [-1, 1]


class EventDriver:
    def __init__(self):
        self.all, self.k = [], 0

    def apply(self, e):
        op, L = e["op"], self.all
        self.k += 1
        if op == "new":
            L.append(make(e["a"]))
        elif op == "standard":
            L.append(standard(e["k"], self.k % 2))
        elif op == "set":
            o, f = L[e["i"]], e["f"]
            setattr(o, TIME["pb"] if f == "t" else FIELD[f], e["v"] / U if f == "t" else e["v"])
        elif op == "shift":
            L[e["i"]].shift_time(e["d"] / U)
        elif op == "copy":
            k = dict(cc_time=e["t"] / U if e["t"] >= 0 else None, quantized_start_step=e["qs"] if e["qs"] >= 0 else None,
                     quantized_end_step=e["qe"] if e["qe"] >= 0 else None)
            L.append(L[e["i"]].make_copy(**{a: b for a, b in k.items() if b is not None or self.k % 2}))
        elif op == "quantize":
            L[e["i"]].quantize_in_place(sps=e["sps"], amount=e["a4"] / 4)
        elif op == "quantized":
            L.append(L[e["i"]].quantize(sps=e["sps"], amount=e["a4"] / 4))
        elif op == "cmp":
            a, b, x = L[e["i"]], L[e["j"]], dict(lt=-1, gt=-1, eq=-1)
            k = proj(a)["k"]
            if e["near"]:
                keep = getattr(b, TIME[k])
                setattr(b, TIME[k], keep * (1 + 1e-11))
            if k != "pb":
                x.update(lt=int(a < b), gt=int(b < a))
            if k in ("cc", "pb", "in", "base") and not e["near"]:
                q = a == b
                odd = (b == a) != q or (a != b) == q or (b != a) == q or not (a == a) or (a == 3) or not (a != None)   # noqa
                if k == "in" and q and (hash(a) != hash(b) or len({a, b}) != 1):
                    odd = True
                x["eq"] = 7 if odd else int(q)
            if e["near"]:
                setattr(b, TIME[k], keep)
            return x
        elif op == "sort":
            mine = [o for o in L if proj(o)["k"] == e["k"]]
            return [[o is p for p in L].index(True) for o in sorted(mine)]
        elif op == "derived":
            o = L[e["i"]]
            k = proj(o)["k"]
            return int(o.is_quantized()) if k == "cc" else [grid(o.event_start_time, U), grid(o.event_end_time, U)] if k == "pb" else proj(o)
        elif op == "dict":
            o = L[e["i"]]
            d = o.to_dict()
            L.append(MidiInstrumentInfo.from_dict(d))
            return dict(k="in", i=d["instrument_num"], name=d["name"], dr=int(d["is_drum"]))
        elif op == "pace":
            return dict(tick=frac(L[e["i"]].seconds_per_tick), quarter=frac(L[e["i"]].seconds_per_quarter))
        elif op == "qpm":
            return grid(MidiTempoSignature.tempo_to_qpm(e["us"]), 8)
        elif op == "table":
            t = MidiControlChange.MIDI_CC_NAME_TO_CC
            try:
                t[3] = None
                frozen = 0
            except TypeError:
                frozen = 1
            return dict(keys=int(all(k == v.cc_number for k, v in t.items())), range=int(all(k in range(128) for k in t)),
                        distinct=int(len({v.description for v in t.values()}) == len(t)), frozen=frozen)
        return 0

    def do(self, e):
        x, res, err = outcome(self.apply, e)
        return dict(ok=int(res == "ok"), x=x if res == "ok" else 0, all=[proj(o) for o in self.all])


def play(cmds):
    d = EventDriver()
    return [d.do(e) for e in cmds]


class Maker:
    """Random histories that keep to what is claimed."""

    def __init__(self, rng, kinds):
        self.rng, self.kinds, self.d, self.ev = rng, kinds, EventDriver(), []

    def run(self, e):
        self.ev.append(dict(e, x=self.d.do(e)))

    def args(self, k):
        r = self.rng
        c = lambda lo, hi: r.choice([lo - 1, lo, hi, hi + 1]) if r.random() < .2 else r.randint(lo, hi)
        t = 125 * r.choice([0, 1, 8, 32, 33, 64, r.randint(0, 2000)])
        a = dict(cc=lambda: dict(n=c(0, 127), v=c(0, 127), t=t, pr=c(0, 127), ins=c(0, 127), dr=r.randint(0, 1), st=c(1, 32),
                                 **r.choice([dict(qs=-1, qe=-1), dict(qs=r.randint(0, 5), qe=r.randint(6, 9))])),
                 pb=lambda: dict(a=c(-8192, 8191), t=t if r.random() < .9 else -125, pr=c(0, 127), ins=c(0, 127), dr=r.randint(0, 1)),
                 te=lambda: dict(t=t, q2=c(1, 600), res=c(1, 960)),
                 ts=lambda: dict(t=t, nu=c(1, 32), de=r.choice([1, 2, 4, 8, 16, 32, 64, r.randint(-9, 130)])),
                 ks=lambda: dict(t=t, key=r.randint(-7, 7), mode=c(0, 1)),
                 **{"in": lambda: dict(i=c(0, 255), name=r.choice(["", "x", "Piano", "a b", " ", " x", "0"]), dr=r.randint(0, 1))},
                 base=lambda: dict(n=r.randint(0, 127), d=r.choice(["a", "b"])))[k]()
        bad = r.randint(1, dict(te=3, ts=2).get(k, 3)) if k in ("te", "ts", "in") and r.random() < .1 else 0
        return dict(a, k=k, bad=bad)

    def step(self):
        r, L = self.rng, self.d.all
        if not L or (len(L) < 8 and r.random() < .35):
            k = r.choice(self.kinds)
            if k in ("te", "ts", "ks") and r.random() < .1:
                return self.run(dict(op="standard", k=k))
            a = self.args(k)
            if r.random() < .5 and L:                # close to one there is
                p = [proj(o) for o in L]
                p = [o for o in p if o["k"] == k]
                if p:
                    o = r.choice(p)
                    for f in a:
                        if f in o and f != "k" and f != "mode" and r.random() < .85:
                            a[f] = o[f]
            return self.run(dict(op="new", a=a))
        i = r.randrange(len(L))
        o = proj(L[i])
        k = o["k"]
        ops = ["cmp", "sort"]
        ops += dict(cc=["set", "set", "quantize", "quantized", "copy", "shift", "derived"], pb=["set", "set", "derived"],
                    te=["set", "pace", "qpm"], ts=["set"], ks=["set"], base=[]).get(k, ["dict", "derived"])
        op = r.choice(ops)
        if op == "cmp":
            js = [j for j in range(len(L)) if proj(L[j])["k"] == k]
            self.run(dict(op="cmp", i=i, j=r.choice(js), near=int(k in ("cc", "te", "ts", "ks") and o["t"] > 0 and r.random() < .3)))
        elif op == "sort":
            if k != "pb":
                self.run(dict(op="sort", k=k))
        elif op == "set":
            f = r.choice(dict(cc=["seq", "st", "qe"] + (["qs"] if o.get("qe", -1) >= 0 else []), pb=["t", "pr", "ins"]).get(k, ["seq"]))
            v = 125 * r.randint(-2, 300) if f == "t" else r.randint(0, 3) if f == "seq" else r.choice([-1, 0, 1, 2, 5, 32, 33, 127, 128])
            self.run(dict(op="set", i=i, f=f, v=v))
        elif op in ("quantize", "quantized"):
            self.run(dict(op=op, i=i, sps=r.choice([1, 2, 4, 5, 8, 16, 25, 32, 33, 50, 0]), a4=r.choice([2, 2, 1, 3, 4])))
        elif op == "copy":
            self.run(dict(op="copy", i=i, t=r.choice([-1, -1, 0, 125 * r.randint(0, 90)]), qs=r.choice([-1, -1, 0, 2]), qe=r.choice([-1, -1, 3, 12])))
        elif op == "shift":
            self.run(dict(op="shift", i=i, d=125 * r.randint(0, 90)))
        elif op == "qpm":
            self.run(dict(op="qpm", us=r.choice([250000, 300000, 400000, 480000, 500000, 600000, 625000, 640000, 750000, 937500, 1000000, 1200000, 1500000])))
        elif op != "derived" or k != "cc" or (o["qs"] >= 0) == (o["qe"] >= 0):
            self.run(dict(op=op, i=i))


def values(run, models, kinds, n):
    for m in models:
        run.replay("values", run.generate("EventsGen", "Events_%s.cfg" % m), play)
    traces = []
    for _ in range(run.n(*n)):
        g = Maker(run.rng, kinds)
        for _ in range(run.rng.randint(4, 30)):
            g.step()
        traces.append(dict(ev=g.ev))
    run.validate("EventsTrace", traces)


def C24(run):
    values(run, ["cc", "pb"], ["cc", "cc", "pb", "base"], (800, 15000))


def C25(run):
    values(run, ["sig", "in"], ["te", "ts", "ks", "in"], (800, 15000))
