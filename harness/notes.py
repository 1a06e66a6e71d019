"""C20 validity, C21 order and equality, C22 quantization, C23 copies and derived values."""
import json
import librosa
from fractions import Fraction
from .lib import grid, outcome
from neural_graph_composer.midi.midi_note import MidiNote, MidiNoteJSONDecoder

U = 8000
NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
OK_SPS = [1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 25, 50]
DEFAULT = dict(s=0, e=8000, p=60, v=100, pr=0, ins=0, qs=-1, qe=-1, vo=0, nu=4, de=4, dr=0)


def kwargs(a):
    return dict(pitch=a["p"], start_time=a["s"] / U, end_time=a["e"] / U, program=a["pr"], instrument=a["ins"],
                velocity=a["v"], quantized_start_step=a["qs"], quantized_end_step=a["qe"], voice=a["vo"],
                numerator=a["nu"], denominator=a["de"], is_drum=bool(a["dr"]))


def make(a, eps=0.0):
    k = kwargs(a)
    k["start_time"] += eps
    return MidiNote(**k)


def num(x):
    """Integers stay; anything that is not a whole number shows as a sentinel."""
    return grid(x, 1)


def proj(n):
    if n is None:
        return dict(s=-1)
    return dict(s=grid(n.start_time, U), e=grid(n.end_time, U), p=num(n.pitch), v=num(n.velocity), pr=num(n.program),
                ins=num(n.instrument), qs=num(n.quantized_start_step), qe=num(n.quantized_end_step), vo=num(n.voice),
                nu=num(n.numerator), de=num(n.denominator), dr=int(bool(n.is_drum)))


class NoteDriver:
    def __init__(self):
        self.n = None
        self.jsoncount = 0

    def apply(self, e):
        op, n = e["op"], self.n
        if op == "new":
            self.n = make(e["a"])
        elif op == "start":
            n.start_time = e["t"] / U
        elif op == "end":
            n.end_time = e["t"] / U
        elif op == "pitch":
            n.pitch = e["t"]
        elif op == "program":
            n.program = e["t"]
        elif op == "qs":
            n.quantized_start_step = e["t"]
        elif op == "qe":
            n.quantized_end_step = e["t"]
        elif op == "shift":
            n.shift_time(e["t"] / U)
        elif op == "stretch":
            n.stretch(e["num"] / e["den"])
        elif op == "quantize":
            n.quantize_in_place(sps=e["sps"], amount=e["a4"] / 4)
        elif op == "quantized":
            q = n.quantize(sps=e["sps"], amount=e["a4"] / 4)
            return dict(ok=1, n=proj(q))
        elif op == "copy":
            c = n.make_copy()
            p = proj(c)
            if "qs" in e:          # a copy that lies elsewhere on the grid
                p = proj(n.make_copy(**{k: e[f] for f, k in (("qs", "quantized_start_step"), ("qe", "quantized_end_step"))
                                        if e[f] >= 0}))
            if not (c == n and n == c):
                p["s"] = -7777
            # changing the copy must not change the source (the source is recorded afterwards)
            c.end_time = c.end_time + 1.0
            c.pitch = (c.pitch + 1) % 128
            c.shift_time(3.0)
            return dict(ok=1, n=p)
        elif op == "json":
            p = proj(n)
            d = dict(pitch=n.pitch, start_time=n.start_time, end_time=n.end_time, program=n.program,
                     instrument=n.instrument, velocity=n.velocity)
            opt = dict(quantized_start_step=n.quantized_start_step, quantized_end_step=n.quantized_end_step,
                       voice=n.voice, numerator=n.numerator, denominator=n.denominator, is_drum=n.is_drum)
            defaults = dict(quantized_start_step=-1, quantized_end_step=-1, voice=0, numerator=4, denominator=4,
                            is_drum=False)
            self.jsoncount += 1
            for k, v in opt.items():     # fields that hold their default may be left out
                if v != defaults[k] or e["full"]:
                    d[k] = v
            if e["how"] == "dict":
                m = MidiNote.from_json(d)
            elif e["how"] == "text":
                m = json.loads(json.dumps({"__MidiNote__": True, "data": d}), cls=MidiNoteJSONDecoder)
            else:
                m = MidiNoteJSONDecoder().decode(json.dumps({"__MidiNote__": True, "data": d}).encode())
            p = proj(m)
            if not (m == n and n == m):
                p["s"] = -7777
            return dict(ok=1, n=p)
        elif op == "query":
            r, status, ex = outcome(n.step_duration_in_samples)
            return dict(ok=1, dur=grid(n.duration(), U), isq=int(n.is_quantized()), samples=num(r) if status == "ok" else -1)
        elif op in ("cmp", "near"):
            a, b = make(e["a"]), make(e["b"], e.get("eps", 0) * 1e-10)
            eq = a == b
            if (b == a) != eq or (a != b) == eq or not (a == a) or (a == 3) or (a == None):  # noqa
                eq = 7
            if e.get("eps"):    # within a nanosecond: the same time
                return dict(ok=1, lt=int(a < b), gt=int(a > b), eq=int(eq))
            return dict(ok=1, lt=int(a < b), gt=int(a > b), le=int(a <= b), ge=int(a >= b), eq=int(eq),
                        ov=int(a.overlaps(b)), vo=int(b.overlaps(a)))
        elif op == "sort":
            return dict(ok=1, l=[proj(x) for x in sorted(make(a) for a in e["l"])])
        elif op == "steps":
            sec = MidiNote.steps_to_seconds(e["k"], e["sps"])
            return dict(ok=1, back=num(round(sec * e["sps"])),
                        floor=num(MidiNote.quantize_to_nearest_step(sec, e["sps"], amount=0.5, is_floor=True)))
        elif op == "grid":
            return dict(ok=1, f=num(MidiNote.quantize_to_nearest_step(e["t"] / U, e["sps"], amount=e["a4"] / 4, is_floor=True)),
                        c=num(MidiNote.quantize_to_nearest_step(e["t"] / U, e["sps"], amount=e["a4"] / 4, is_floor=False)))
        elif op == "freq":
            if e["how"] == "number":
                f = MidiNote.note_to_freq(e["p"])
            else:
                f = MidiNote.pitch_to_freq(NAMES[e["p"] % 12], e["p"] // 12 - 1)
            return dict(ok=1, f=int(round(float(f) * 1000)))
        elif op == "called":
            a = e["a"]
            kw = dict(velocity=a["v"], program=a["pr"], instrument=a["ins"], is_drum=bool(a["dr"]))
            self.n = MidiNote.from_name("%s%d" % (NAMES[a["p"] % 12], a["p"] // 12 - 1), a["s"] / U, a["e"] / U,
                                        **{k: v for k, v in kw.items() if k not in e["but"]})
        elif op == "name":
            m = MidiNote.from_name("%s%d" % (NAMES[e["k"] - 1], e["oct"]), 0.0, 1.0)
            return dict(ok=1, p=num(m.pitch))
        return dict(ok=1, n=proj(self.n))

    def do(self, e):
        res, status, ex = outcome(self.apply, e)
        if status == "raise":
            res = dict(ok=0, n=proj(self.n)) if e["op"] in ("new", "start", "end", "pitch", "program", "qs", "qe") \
                else dict(ok=-1)
        p, status, ex = outcome(proj, self.n)
        if status == "ok" and self.n is not None and librosa.note_to_midi(self.n.pitch_name) != self.n.pitch:
            p["p"] = -4444       # the name names another pitch
        return dict(res=res, note=p if status == "ok" else dict(s=-5555))


def play(cmds):
    d = NoteDriver()
    return [d.do(e) for e in cmds]


def rnote(rng, lo=0, hi=40, **kw):
    """A random valid note on the 1/64 s grid."""
    s = rng.randrange(lo, hi * 64) * 125
    a = dict(DEFAULT, s=s, e=s + rng.choice([1, 2, 3, 8, 16, 32, 64, 65, 200, 640]) * 125, p=rng.randrange(128),
             v=rng.randrange(128), pr=rng.randrange(256), ins=rng.randrange(128))
    if rng.random() < .3:
        a.update(vo=rng.randrange(3), nu=rng.choice([1, 3, 6, 7, 255]), de=rng.choice([1, 2, 4, 8, 16, 128]), dr=rng.randrange(2))
    a.update(kw)
    return a


def record(cmds):
    d = NoteDriver()
    return dict(ev=[dict(e, x=d.do(e)) for e in cmds])


def C20(run):
    run.replay("MidiNote", run.generate("NoteGen"), play)
    rng, traces = run.rng, []
    for _ in range(run.n(250, 5000)):
        a = rnote(rng)
        if rng.random() < .4:
            a[rng.choice(["p", "v", "pr", "ins"])] = rng.choice([-300, -1, 0, 127, 128, 255, 256, 1000])
        cmds = [dict(op="new", a=a)]
        if rng.random() < .3:      # a refused creation first
            b = dict(a)
            b.update(rng.choice([dict(e=a["s"]), dict(e=a["s"] - 125), dict(nu=0), dict(nu=-3), dict(de=3), dict(de=0), dict(de=-4),
                                 dict(de=6), dict(de=12)]))
            cmds.insert(0, dict(op="new", a=b))
        for _ in range(rng.randrange(2, 25)):
            op = rng.choice(["start", "end", "start", "end", "pitch", "program", "qs", "qe"])
            if op in ("start", "end"):
                t = rng.choice([a["s"], a["e"], a["s"] + 125, a["e"] - 125, a["e"] + 125, -125, 0, rng.randrange(0, 50 * 64) * 125])
            elif op == "pitch":
                t = rng.choice([-1, 0, 127, 128, rng.randrange(128)])
            elif op == "program":
                t = rng.choice([-1, 0, 127, 128, 255, 256, rng.randrange(256)])
            else:
                t = rng.choice([-5, -1, 0, 1, 7, 30])
            cmds.append(dict(op=op, t=t))
        traces.append(record(cmds))
    run.validate("NoteTrace", traces)


def variations(rng, a):
    """The same note, or one that differs in a single field."""
    b = dict(a)
    k = rng.choice(["same", "s", "e", "p", "v", "pr", "ins", "qs", "qe", "vo", "nu", "de", "dr"])
    if k == "s":
        b["s"] = rng.choice([max(0, a["s"] - 125), min(a["s"] + 125, a["e"] - 125)])
        if b["s"] >= b["e"]:
            b["e"] = b["s"] + 125
    elif k == "e":
        b["e"] = a["e"] + 125
    elif k in ("p", "v", "ins"):
        b[k] = (a[k] + 1) % 128
    elif k == "pr":
        b[k] = (a[k] + 1) % 256
    elif k in ("qs", "qe", "vo"):
        b[k] = a[k] + 1
    elif k == "nu":
        b[k] = a[k] % 255 + 1
    elif k == "de":
        b[k] = 8 if a[k] != 8 else 4
    elif k == "dr":
        b[k] = 1 - a[k]
    return b


def C21(run):
    run.replay("MidiNote comparison", run.generate("NoteGen", "NoteCmpGen.cfg"), play)
    rng, traces = run.rng, []
    for _ in range(run.n(400, 6000)):
        cmds = []
        for _ in range(10):
            a = rnote(rng, hi=4)
            b = variations(rng, a) if rng.random() < .6 else rnote(rng, hi=4)
            if rng.random() < .3:
                b = dict(b, s=a["s"], e=max(b["e"], a["s"] + 125))
            c = dict(op="cmp", a=a, b=b)
            if rng.random() < .2:
                c.update(op="near", eps=rng.choice([1, 2]))
            elif rng.random() < .4:             # late, long, a little apart
                at, more, d = rng.choice([0, 60, 600, 4000]) * 8000, rng.choice([0, 0, 300]) * 8000, rng.choice([1, 2, 10, 50, 125])
                a = dict(a, s=a["s"] + at, e=a["e"] + at + more)
                b = dict(variations(rng, a) if rng.random() < .2 else a)
                if rng.random() < .5:
                    b.update(s=min(a["s"] + d, a["e"] - 1), e=max(b["e"], a["s"] + d + 1))
                else:
                    b.update(e=max(b["e"], a["e"] + d))
                c.update(a=a, b=b)
            cmds.append(c)
        pool = [rnote(rng, hi=1) for _ in range(4)]
        cmds.append(dict(op="sort", l=[variations(rng, rng.choice(pool)) for _ in range(rng.randrange(2, 14))]))
        traces.append(record(cmds))
    run.validate("NoteTrace", traces)


def C22(run):
    run.replay("MidiNote.quantize", run.generate("NoteGen", "NoteQuantGen.cfg"), play)
    rng, traces = run.rng, []
    for _ in range(run.n(600, 12000)):
        a = rnote(rng, hi=rng.choice([1, 5, 60]))
        if rng.random() < .25:     # on or next to a grid line
            a["s"] = rng.randrange(0, 40) * 1000
            a["e"] = a["s"] + rng.choice([125, 875, 1000, 1125, 4000])
        cmds = [dict(op="new", a=a)]
        for _ in range(rng.randrange(0, 4)):
            cmds.append(dict(op=rng.choice(["quantized", "grid"]), sps=rng.choice(OK_SPS), a4=rng.randrange(1, 5), t=rng.randrange(0, 3000) * 125))
        cmds.append(dict(op="query"))
        cmds.append(dict(op="quantize", sps=rng.choice(OK_SPS), a4=rng.randrange(1, 5)))
        cmds.append(dict(op="query"))
        d = NoteDriver()
        ev = [dict(e, x=d.do(e)) for e in cmds]
        for _ in range(2):         # and again, on other grids
            sps, a4 = rng.choice(OK_SPS), rng.randrange(1, 5)
            if d.n is not None and not ambiguous(proj(d.n), sps, a4):
                for e in (dict(op="quantize", sps=sps, a4=a4), dict(op="query")):
                    ev.append(dict(e, x=d.do(e)))
        traces.append(dict(ev=ev))
    run.validate("NoteTrace", traces)


def ambiguous(n, sps, a4):
    """Times that are no binary fractions and lie exactly on the grid: rounding noise decides."""
    def steps(t):
        return t * sps + (4 - a4) * (U // 4)
    end = round(Fraction(100 * -(-steps(n["e"]) // U), sps)) * 80
    return any(t % 125 and steps(t) % U == 0 for t in (n["s"], n["e"])) or (n["e"] % 125 != 0 and end == n["e"])


def C23(run):
    rng, traces = run.rng, []
    run.replay("overlap and equality", run.generate("NoteGen", "NoteCmpGen.cfg"), play)
    traces.append(record([dict(op="freq", p=p, how=h) for p in range(128) for h in ("number", "name")]))
    traces.append(record([dict(op="name", k=k, oct=o) for k in range(1, 13) for o in range(0, 9)]))
    for _ in range(run.n(300, 5000)):
        a = rnote(rng)
        if rng.random() < .3:
            a["qs"] = rng.randrange(0, 9)
            a["qe"] = a["qs"] + rng.randrange(1, 9)
        cmds = [dict(op="new", a=a), dict(op="query"), dict(op="copy"),
                dict(op="json", how=rng.choice(["dict", "text", "bytes"]), full=rng.randrange(2)), dict(op="query")]
        for _ in range(4):
            b = rnote(rng, lo=max(0, a["s"] // 125 - 100), hi=a["s"] // 8000 + 3)
            if rng.random() < .5:
                b["s"] = rng.choice([a["s"], a["e"], max(0, a["s"] - 1000)])
                b["e"] = max(b["s"] + 125, rng.choice([a["s"], a["e"], a["e"] + 125, a["e"] - 125]))
            cmds.append(dict(op="cmp", a=a, b=b))
        cmds.append(dict(op="shift", t=rng.randrange(0, 800) * 125))
        cmds.append(dict(op="copy"))
        qs = rng.choice([-1, 0, 0, 3])
        cmds.append(dict(op="copy", qs=qs, qe=rng.choice([-1, qs + 1, qs + 4])))
        cmds.append(dict(op="stretch", num=rng.choice([1, 2, 3]), den=1))
        cmds.append(dict(op="query"))
        if rng.random() < .3:
            c, but = rnote(rng, vo=0, nu=4, de=4), rng.sample(["velocity", "program", "instrument", "is_drum"], rng.choice([0, 0, 1, 2]))
            c.update({k: v for k, v, w in (("v", 127, "velocity"), ("pr", 0, "program"), ("ins", 0, "instrument"), ("dr", 0, "is_drum")) if w in but})
            if rng.random() < .3:
                c["ins" if "instrument" not in but else "s"] = 0
            cmds.append(dict(op="called", a=c, but=but))
            cmds.append(dict(op="copy"))
        cmds.append(dict(op="steps", k=rng.randrange(0, 5000), sps=rng.choice([1, 2, 3, 4, 7, 10, 16, 24, 100, 220])))
        traces.append(record(cmds))
    run.validate("NoteTrace", traces)
