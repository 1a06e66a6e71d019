"""C10-C16: MidiNoteSequence (spec/Sequence.tla).  C17: MidiNoteSequences (spec/Piece.tla)."""
import copy
from .lib import grid, outcome
from .notes import make, proj, rnote, num, U, OK_SPS, DEFAULT
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
from neural_graph_composer.midi.midi_control_change import MidiControlChange
from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend

GENERIC = [0, "Generic", 0]
CC_SPS = [s for s in OK_SPS if s <= 32]


def info(ins):
    return MidiInstrumentInfo(ins[0], name=ins[1], is_drum=bool(ins[2]))


def pcc(c):
    return dict(n=num(c.cc_number), v=num(c.cc_value), t=grid(c.cc_time, U), pr=num(c.program), ins=num(c.instrument),
                dr=int(bool(c.is_drum)), st=num(c.quantized_step), qs=num(c.quantized_start_step),
                qe=num(c.quantized_end_step))


def ppb(b):
    return dict(a=num(b.amount), t=grid(b.midi_time, U), pr=num(b.program), ins=num(b.instrument), dr=int(bool(b.is_drum)))


def mcc(c):
    return MidiControlChange(cc_number=c["n"], cc_value=c["v"], cc_time=c["t"] / U, program=c["pr"],
                             instrument=c["ins"], is_drum=bool(c["dr"]))


def mpb(b):
    return MidiPitchBend(amount=b["a"], midi_time=b["t"] / U, program=b["pr"], instrument=b["ins"], is_drum=bool(b["dr"]))


def view(q):
    notes = list(q.notes)
    ln = len(q)
    ids = [id(n) for n in notes]
    try:
        if [id(n) for n in q] != ids or [id(q[i]) for i in range(len(ids))] != ids \
                or [id(n) for n in q.get_midi_events()] != ids:
            ln = -7777
        drums = q.drum_events
        if [id(n) for n in drums] != (ids if q.instrument.is_drum else []):
            ln = -7776
    except Exception:  # noqa
        ln = -7775
    return dict(ins=[num(q.instrument.instrument_num), q.instrument.name, int(bool(q.instrument.is_drum))],
                res=num(q.resolution), notes=[proj(n) for n in notes], tot=grid(q.total_time, U),
                cc=[pcc(c) for c in q.control_changes], pb=[ppb(b) for b in q.pitch_bends],
                tqs=num(q.total_quantized_steps), len=ln, isq=int(bool(q.is_quantized())))


class SeqDriver:
    def __init__(self, start=None):
        self.q = {k: MidiNoteSequence() for k in (1, 2, 3)}
        for k, ins in (start or {}).items():
            self.q[k] = MidiNoteSequence(instrument=info(ins))

    def apply(self, e):
        op, k = e["op"], e["k"]
        q = self.q[k]
        if op == "new":
            l = [make(n) for n in e["l"]]
            if e["ins"][2] and e.get("via"):
                self.q[k] = MidiNoteSequence(drum_events=l, instrument=info(e["ins"]), resolution=e["res"])
            else:
                self.q[k] = MidiNoteSequence(notes=l, instrument=info(e["ins"]), resolution=e["res"])
        elif op == "fromnotes":
            self.q[k] = MidiNoteSequence.from_notes([make(n) for n in e["l"]])
        elif op == "setins":
            q.instrument = info(e["ins"])
        elif op == "setres":
            q.resolution = e["t"]
        elif op == "newnum":
            self.q[k] = MidiNoteSequence(notes=[make(n) for n in e["l"]], instrument=e["t"])
        elif op == "pitches":
            return [num(p) for p in q.as_note_seq()]
        elif op == "points":
            l = sorted(q.notes, key=lambda n: n.start_time)
            given, pts = list(l), [t / U for t in e["ts"]]
            r = MidiNoteSequence.compute_intervals(l, pts, bool(e["skip"]))
            if [id(n) for n in l] != [id(n) for n in given] or pts != [t / U for t in e["ts"]]:
                return [-7774]
            return [grid(t, U) for t in r]
        elif op == "minstep":
            return [grid(q.calculate_min_step(), U)]
        elif op == "append":
            q.append(make(e["n"]))
        elif op == "extend":
            q.extend(make(e["n"]))
        elif op == "appendlist":
            q.append([make(n) for n in e["l"]])
        elif op == "extendlist":
            q.extend([make(n) for n in e["l"]])
        elif op == "addnote":
            q.add_note(make(e["n"]))
        elif op in ("insert", "insertg"):
            n = make(e["n"])
            q.insert(n)
            if op == "insert":
                at = [i for i, m in enumerate(q.notes) if m is n]
                e["pos"] = at[0] + 1 if len(at) == 1 else 1
        elif op == "setnotes":
            q.notes = [make(n) for n in e["l"]]
        elif op == "cutinplace":
            q.cut_in_place(e["t"])
        elif op == "shift":
            q.shift_times(e["t"] / U)
        elif op == "stretch":
            q.stretch(e["num"] / e["den"])
        elif op == "quantize":
            if e["qn"] == "observe":
                e["qn"] = [proj(n.quantize(sps=e["sps"], amount=e["a4"] / 4)) for n in q.notes]
            q.quantize(sps=e["sps"], amount=e["a4"] / 4)
        elif op in ("merge", "mergeg"):
            other = copy.deepcopy(self.q[e["y"]]) if e["y"] != k else q
            before = view(other)
            try:
                q.merge(other)
            finally:
                if op == "merge":
                    e["got"] = [proj(n) for n in q.notes]
                if other is not q and view(other) != before:
                    self.q[e["y"]] = other      # the operand was changed: let it show
            q.notes = [copy.deepcopy(n) for n in q.notes]
        elif op == "addcc":
            q.add_control_changes(mcc(e["c"]))
        elif op == "addpb":
            q.add_pitch_bends(mpb(e["c"]))
        elif op == "bend":
            q.pitch_bends[0].midi_time = q.pitch_bends[0].midi_time + e["t"] / U
        elif op == "control":
            q.control_changes[0].cc_time += e["t"] / U
        elif op == "retune":
            q.notes[e["t"] - 1].pitch = (q.notes[e["t"] - 1].pitch + 1) % 128
        elif op == "clone":
            self.q[e["z"]] = q.clone()
        elif op == "cloneempty":
            self.q[e["z"]] = q.clone_empty()
        elif op == "sum":
            self.q[e["z"]] = q + self.q[e["y"]]
        elif op == "slice":
            self.q[e["z"]] = q.slice(e["a"] / U, e["b"] / U)
        elif op == "truncate":
            self.q[e["z"]] = q.truncate(e["t"] / U)
        elif op == "cut":
            self.q[e["z"]] = copy.deepcopy(q.cut(e["t"]))
        elif op == "extract":
            return [view(s) for s in q.extract([t / U for t in e["ts"]])]
        elif op == "split":
            span = e["span"] / U if e["span"] else [t / U for t in e["ts"]]
            return [view(s) for s in q.split(span, skip_boundary=bool(e["skip"]))]
        elif op == "lastevent":
            return [grid(q.truncate_to_last_event(e["t"] / U), U)]
        elif op == "strict":
            q.slice(0.0, 1.0, is_strict=True)
        elif op == "bad":
            self.bad(q, e["how"])
        else:
            raise KeyError(op)
        return []

    def bad(self, q, how):
        n = make(dict(DEFAULT, ins=q.instrument.instrument_num, s=80000, e=160000))
        drum = q.instrument
        [lambda: q.append("x"), lambda: q.append(None), lambda: q.append(3), lambda: q.append((n,)),
         lambda: q.append([n, 5]), lambda: q.extend("x"), lambda: q.extend([n, "x"]), lambda: q.extend(None),
         lambda: setattr(q, "total_time", "9"), lambda: setattr(q, "total_time", None),
         lambda: setattr(q, "total_time", [1.0]), lambda: MidiNoteSequence(notes=n),
         lambda: MidiNoteSequence(instrument="piano"), lambda: MidiNoteSequence(resolution="x"),
         lambda: q.merge([n]), lambda: q + [n], lambda: MidiNoteSequence(drum_events=(n,), instrument=drum),
         lambda: MidiNoteSequence(is_debug="x"), lambda: q.add_note("x"), lambda: q.append([5]),
         lambda: MidiNoteSequence(notes="abc"), lambda: MidiNoteSequence(notes=[5]), lambda: MidiNoteSequence(notes=(n,)),
         lambda: MidiInstrumentInfo("3"), lambda: MidiInstrumentInfo(256), lambda: MidiInstrumentInfo(-1),
         lambda: MidiInstrumentInfo(1, name=3), lambda: MidiInstrumentInfo(1, is_drum="x"),
         lambda: setattr(q, "resolution", "x"), lambda: setattr(q, "resolution", 4.5)][how - 1]()

    def do(self, e):
        r, status, ex = outcome(self.apply, e)
        if e["op"] == "insert":
            e.setdefault("pos", 1)
        if e["op"] == "quantize" and e["qn"] == "observe":
            e["qn"] = [proj(n) for n in self.q[e["k"]].notes]
        return dict(res=dict(ok=1, r=r) if status == "ok" else dict(ok=0, r=[]), all=[view(self.q[k]) for k in (1, 2, 3)])


def record(cmds, driver=None):
    d = driver or SeqDriver()
    ev = []
    for e in cmds:
        e = dict(e)
        x = d.do(e)
        ev.append(dict(e, x=x))
    return dict(ev=ev)


PIANO, DRUMS = [1, "Piano", 0], [1, "Drums", 1]


def play(cmds):
    d = SeqDriver({1: PIANO, 2: PIANO})
    return [d.do(dict(e)) for e in cmds]


class Gen:
    """Random histories over three slots; the shape of a command may look at the live sequences."""

    def __init__(self, rng, drum=False, unit=1000, hi=6):
        self.rng, self.unit, self.hi = rng, unit, hi
        self.ins = [rng.randrange(0, 5), rng.choice(["Piano", "Lead", "Bass"]), int(drum)]
        self.d = SeqDriver()
        self.ev = []
        self.near = rng.choice([0, 0, 0, 1])     # events may be that near to each other
        many = rng.choice([0] * 30 + [70, 140])
        for k in (1, 2, 3):
            self.run(dict(op="new", k=k, ins=self.ins, res=rng.choice([220, 480]) if k == 1 else self.res,
                          l=self.notes(rng.choice([0, 0, 1, 3]) + (many if k == 1 else 0)), via=rng.randrange(2)))
            if k == 1:
                self.res = self.ev[0]["res"]

    def run(self, e):
        self.ev.append(dict(e, x=self.d.do(e)))

    def note(self):
        rng = self.rng
        s = rng.randrange(0, self.hi * U // self.unit) * self.unit
        e = s + rng.choice([1, 1, 2, 3, 4, 8, 16]) * self.unit
        if rng.random() < .25:
            s, e = rng.choice([(0, U), (0, 2 * U), (U, 2 * U)])
        return dict(DEFAULT, s=s, e=e, p=rng.choice([60, 60, 62, rng.randrange(128)]), v=rng.randrange(128),
                    ins=self.ins[0], dr=self.ins[2])

    def notes(self, n):
        return [self.note() for _ in range(n)]

    def times(self, k):
        return [t for n in self.d.q[k].notes for t in (grid(n.start_time, U), grid(n.end_time, U))]

    def total(self, k):
        return max(self.times(k), default=0)

    def cut_time(self, k):
        """A window bound: often exactly at, or just beside, a start or an end."""
        ts = self.times(k) or [0]
        t = self.rng.choice(ts) + self.rng.choice([0, 0, 125, -125, self.unit] + [1, -1, -1, 3] * self.near)
        return max(0, self.rng.choice([t, self.rng.randrange(0, self.hi * 64) * 125]))

    def edit(self, k):
        rng = self.rng
        op = rng.choice(["append", "extend", "addnote", "append", "appendlist", "extendlist"])
        if op.endswith("list"):
            self.run(dict(op=op, k=k, l=self.notes(rng.choice([0, 1, 2, 4]))))
        else:
            self.run(dict(op=op, k=k, n=self.note()))

    def trace(self):
        return dict(ev=self.ev)


def many(run, quick, deep, body):
    traces = []
    for i in range(run.n(quick, deep)):
        traces.append(body(run.rng))
    run.validate("SequenceTrace", traces, chunk=1500)


def C10(run):
    run.replay("MidiNoteSequence edits", run.generate("SequenceGen", "Sequence_edit.cfg"), play)

    def body(rng):
        g = Gen(rng, drum=rng.random() < .3)
        for _ in range(rng.randrange(3, 18)):
            k, r = rng.choice([1, 1, 1, 2]), rng.random()
            ts = g.times(k)
            if r < .5:
                g.edit(k)
            elif r < .58:
                g.run(dict(op="setnotes", k=k, l=g.notes(rng.choice([0, 1, 3]))))
            elif r < .68:
                g.run(dict(op="cutinplace", k=k, t=rng.choice([0, 1, 2, 3, 50])))
            elif r < .76 and max(ts, default=0) < 200 * U:
                g.run(dict(op="stretch", k=k, num=rng.choice([1, 2, 3]), den=rng.choice([1] + [2] * all(t % 2 == 0 for t in ts))))
            elif r < .84:
                y = rng.choice([1, 2, 3])
                if len(ts) < 80:
                    g.run(dict(op="merge", k=k, y=y))
            elif r < .90:
                g.run(dict(op="lastevent", k=k, t=rng.choice([0, U, 125])))
            elif r < .93:
                g.run(dict(op="minstep", k=k))
            elif r < .96:
                g.run(dict(op="pitches", k=k))
            elif r < .97:
                g.run(dict(op="newnum", k=3, t=g.ins[0], l=[dict(n, dr=0) for n in g.notes(rng.choice([0, 1, 3]))]))
            elif g.ins[2] == 0:
                g.run(dict(op="fromnotes", k=3, l=g.notes(rng.choice([0, 1, 3]))))
        return g.trace()
    many(run, 250, 4000, body)


def C11(run):
    run.replay("MidiNoteSequence insertion and merging", run.generate("SequenceGen", "Sequence_sorted.cfg"), play)

    def body(rng):
        g = Gen(rng, drum=rng.random() < .3, unit=rng.choice([1000, 4000]), hi=rng.choice([1, 2, 5]))
        for k in (1, 2, 3):
            g.run(dict(op="setnotes", k=k, l=[]))
        for _ in range(rng.randrange(4, 20)):
            r, k = rng.random(), rng.choice([1, 2])
            if r < .7:
                g.run(dict(op="insert", k=k, n=g.note()))
            elif r < .85:
                g.run(dict(op="append", k=3, n=g.note()))
            elif len(g.d.q[k].notes) < 60:
                g.run(dict(op="merge", k=k, y=rng.choice([1, 2, 3, 3])))
        return g.trace()
    many(run, 250, 4000, body)


def C12(run):
    run.replay("MidiNoteSequence windows", run.generate("SequenceGen", "Sequence_window.cfg"), play)

    def body(rng):
        g = Gen(rng, drum=rng.random() < .3)
        g.edit(1)
        for _ in range(rng.randrange(3, 14)):
            r = rng.random()
            if r < .3:
                g.edit(1)
            elif r < .5:
                a, b = sorted((g.cut_time(1), g.cut_time(1)))
                if a < b:
                    g.run(dict(op="slice", k=1, z=2, a=a, b=b))
            elif r < .62:
                g.run(dict(op="truncate", k=1, z=2, t=g.cut_time(1)))
            elif r < .72:
                g.run(dict(op="cut", k=1, z=2, t=rng.choice([0, 1, 2, 3, 5, 40])))
            elif r < .86:
                ts = sorted(g.cut_time(1) for _ in range(rng.randrange(2, 6)))
                tot = g.total(1)
                if rng.random() < .85:
                    ts = [t for t in ts[:-1] if t < tot] + [ts[-1]]
                elif rng.random() < .5:
                    ts.reverse()
                g.run(dict(op="extract", k=1, ts=ts))
            else:
                tot = g.total(1)
                span = rng.choice([125, 500, 1000, 2000, 4000, 8000, 12000])
                if rng.random() < .3 and tot < 60 * span:     # a little note at the very end, just after a point
                    s = -(-tot // span) * span + rng.choice([0, 0, 1])
                    g.run(dict(op="append", k=1, n=dict(g.note(), s=s, e=s + rng.choice([1, 3, 4, 8]))))
                    tot = g.total(1)
                if rng.random() < .6 and tot < 60 * span:
                    g.run(dict(op="split", k=1, ts=list(range(span, tot, span)), span=span, skip=rng.randrange(2)))
                else:
                    ts = sorted(t for t in set([g.cut_time(1) for _ in range(3)] + [tot - rng.choice([1, 3, 4, 8, 8 * U])]) if 0 < t < tot)
                    g.run(dict(op=rng.choice(["split", "points"]), k=1, ts=ts, span=0, skip=rng.randrange(2)))
        return g.trace()
    many(run, 250, 4000, body)


def C13(run):
    run.replay("MidiNoteSequence rejections", run.generate("SequenceGen", "Sequence_reject.cfg"), play)

    def body(rng):
        g = Gen(rng, drum=rng.random() < .3)
        for _ in range(rng.randrange(4, 16)):
            r, k = rng.random(), rng.choice([1, 2])
            if r < .3:
                g.edit(k)
            elif r < .6:
                g.run(dict(op="bad", k=k, how=rng.randrange(1, 31)))
            elif r < .7:
                g.run(dict(op="addnote", k=k, n=dict(g.note(), ins=g.ins[0] + rng.choice([0, 1, 100]))))
            elif r < .8:     # a foreign note gets in by append
                g.run(dict(op="append", k=k, n=dict(g.note(), ins=g.ins[0] + rng.choice([0, 1]))))
            elif r < .88:
                ins = rng.choice([g.ins, [g.ins[0] + 1] + g.ins[1:], [g.ins[0], "Else", g.ins[2]], [g.ins[0], g.ins[1], 1 - g.ins[2]]])
                g.run(dict(op="new", k=3, ins=ins, res=rng.choice([220, 480, g.res]), l=[dict(n, ins=ins[0], dr=ins[2]) for n in g.notes(2)]))
            elif len(g.d.q[k].notes) < 40:
                y = rng.choice([1, 2, 3])
                g.run(dict(op=rng.choice(["merge", "merge", "sum"]), k=k, y=y, z=2))
        return g.trace()
    many(run, 250, 4000, body)


def rcc(rng, g):
    return dict(n=rng.choice([1, 7, 64, 120, rng.randrange(128)]), v=rng.choice([0, 127, rng.randrange(128)]), t=rng.randrange(0, 300) * 125, pr=rng.randrange(3), ins=g.ins[0],
                dr=g.ins[2], st=4, qs=-1, qe=-1)


def rpb(rng, g):
    return dict(a=rng.choice([-8192, -8191, 0, 100, 8191]), t=rng.randrange(0, 300) * 125, pr=rng.randrange(3), ins=g.ins[0], dr=g.ins[2])


def C14(run):
    run.replay("MidiNoteSequence clones and sums", run.generate("SequenceGen", "Sequence_copy.cfg"), play)

    def body(rng):
        g = Gen(rng, drum=rng.random() < .4)
        g.edit(1)
        for _ in range(rng.randrange(4, 18)):
            r, k, z = rng.random(), rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
            q = g.d.q[k]
            if r < .2:
                g.edit(k)
            elif r < .4 and z != k:
                g.run(dict(op=rng.choice(["clone", "clone", "cloneempty"]), k=k, z=z))
            elif r < .52 and len(q.notes) < 40:
                g.run(dict(op="sum", k=k, y=rng.choice([1, 2, 3]), z=z))
            elif r < .6:
                g.run(dict(op="addcc", k=k, c=rcc(rng, g)))
            elif r < .68:
                g.run(dict(op="addpb", k=k, c=rpb(rng, g)))
            elif r < .78 and q.notes:
                g.run(dict(op="retune", k=k, t=rng.randrange(1, len(q.notes) + 1)))
            elif r < .83 and q.pitch_bends:
                g.run(dict(op="bend", k=k, t=U))
            elif r < .88 and q.control_changes:
                g.run(dict(op="control", k=k, t=U))
            elif r < .91:
                g.run(dict(op="setres", k=k, t=rng.choice([96, 220, 480])))
            elif r < .94:
                g.run(dict(op="setins", k=k, ins=[g.ins[0], rng.choice(["Piano", "Lead", "Bass"]), g.ins[2]]))
            elif r < .97:
                g.run(dict(op="shift", k=k, t=1000))
            else:
                g.run(dict(op="setnotes", k=k, l=g.notes(2)))
        return g.trace()
    many(run, 250, 4000, body)


def C15(run):
    run.replay("MidiNoteSequence shifts and stretches", run.generate("SequenceGen", "Sequence_move.cfg"), play)

    def body(rng):
        g = Gen(rng, drum=rng.random() < .3)
        if rng.random() < .4:      # some or all notes already quantized
            p = rng.choice([.5, 1])
            l = [dict(n, qs=3, qe=5) if rng.random() < p else n for n in g.notes(rng.randrange(1, 4))]
            g.run(dict(op="setnotes", k=1, l=l))
        k = 1
        if rng.random() < .3:      # a sequence that lasts longer than its notes
            k = 2
            a = g.cut_time(1)
            g.run(dict(op="truncate", k=1, z=2, t=a + 125) if rng.random() < .5 else dict(op="slice", k=1, z=2, a=rng.choice([0, 0, a]), b=a + rng.choice([125, 1000, 8000])))
        for _ in range(rng.randrange(3, 14)):
            r, ts = rng.random(), g.times(k)
            ts.append(grid(g.d.q[k].total_time, U))
            if r < .3 and rng.random() < .6 and min(ts, default=0) >= 0:
                g.edit(k)
            elif r < .7 and max(ts, default=0) < 1000 * U:
                d = rng.choice([0, 125, 1000, 8000, 12500, -125, -1000, -3000, -min(ts, default=0)])
                # notes may move before 0, the whole sequence does not
                if max(ts, default=0) + d >= 0:
                    g.run(dict(op="shift", k=k, t=d))
                    if rng.random() < .4:
                        g.run(dict(op="shift", k=k, t=-d))
            elif max(ts, default=0) < 200 * U:
                g.run(dict(op="stretch", k=k, num=rng.choice([1, 2, 3, 4]), den=rng.choice([1] + [2] * all(t % 2 == 0 for t in ts)
                           + [4] * all(t % 4 == 0 for t in ts))))
        return g.trace()
    many(run, 250, 4000, body)


def C16(run):
    run.replay("MidiNoteSequence quantization", run.generate("SequenceGen", "Sequence_quant.cfg"), play)

    def body(rng):
        g = Gen(rng, drum=rng.random() < .3, unit=rng.choice([125, 1000]))
        for _ in range(rng.randrange(3, 12)):
            r = rng.random()
            if r < .3:
                g.edit(1)
            elif r < .4:
                n = g.note()
                g.run(dict(op="append", k=1, n=dict(n, qs=rng.randrange(0, 9), qe=20)))
            elif r < .55:
                g.run(dict(op="addcc", k=1, c=rcc(rng, g)))
            elif r < .6:
                g.run(dict(op="addpb", k=1, c=rpb(rng, g)))
            elif r < .7:
                g.run(dict(op="clone", k=1, z=2))
            elif r < .75:
                g.run(dict(op="strict", k=1))
            else:
                q = g.d.q[1]
                mixed = any(n.is_quantized() for n in q.notes)
                g.run(dict(op="quantize", k=1, sps=rng.choice(CC_SPS if q.control_changes else OK_SPS), a4=rng.randrange(1, 5),
                           qn="observe" if mixed else []))
        return g.trace()
    many(run, 250, 4000, body)
    run.replay("MidiNoteSequences.is_quantized", run.generate("PieceGen", "PieceQuant.cfg"), pplay)
    run.validate("PieceTrace", [piece_trace(run.rng, True) for _ in range(run.n(150, 2000))], chunk=1500)


# ------------------------------------------------------------------ pieces
class PieceDriver:
    def __init__(self):
        self.p = MidiNoteSequences(resolution=220)
        self.held = None

    def seq(self, e):
        return MidiNoteSequence(notes=[make(n) for n in e["l"]], instrument=info(e["ins"]), resolution=e["res"])

    def apply(self, e):
        op, p, t = e["op"], self.p, e.get("t")
        if op == "make":
            l = [self.seq(x) for x in e["l"]]
            self.p = MidiNoteSequences(midi_seq=l[0] if len(l) == 1 and e.get("one") else l, resolution=e["res"])
            self.held = None
        elif op == "create":
            return [num(p.create_track(t, e["ins"][0], e["ins"][1], bool(e["ins"][2])))]
        elif op == "get":
            return [view(p.get_track(t, e["ins"][1], e["ins"][0], bool(e["ins"][2])))]
        elif op == "idx":
            return [view(p[t])]
        elif op == "hold":
            self.held = p[t]
        elif op == "viahold":
            if self.held is not None:
                self.held.append(make(e["n"]))
        elif op == "put":
            if e["how"] == "set":
                p.set_sequence(t, self.seq(e))
            else:
                p[t] = self.seq(e)
        elif op == "putlist":
            if e["how"] == "set":
                p.set_sequence(t, [make(n) for n in e["l"]])
            else:
                p[t] = [make(n) for n in e["l"]]
        elif op == "note":
            p[t].append(make(e["n"]))
        elif op == "quantize":
            p[t].quantize(sps=e["sps"], amount=e["a4"] / 4)
        elif op == "isq":
            return [int(bool(p.is_quantized()))]
        elif op == "badtrack":
            [lambda: p[-1], lambda: p[128], lambda: p["0"], lambda: p.__setitem__(-1, MidiNoteSequence()),
             lambda: p.__setitem__(128, MidiNoteSequence()), lambda: p.__setitem__(99, 5),
             lambda: p.create_track(99, 128, "x", False), lambda: p.create_track(99, -1, "x", False),
             lambda: p.create_track(99, 0, 7, False), lambda: p.create_track(99, 0, "x", 1),
             lambda: p.get_track(-1, "x", 0, False), lambda: p.get_track(128, "x", 0, False)][e["how"] - 1]()
        else:
            raise KeyError(op)
        return []

    def view(self):
        p = self.p
        keys = list(p)
        seqs = [p[k] for k in keys]
        n = len(p)
        if p.num_track() != n or list(p) != keys:
            n = -7777
        return dict(keys=[num(k) for k in keys], tracks=[view(q) for q in seqs], n=n, ni=num(p.num_instruments()),
                    insts=[[num(i.instrument_num), i.name, int(bool(i.is_drum))] for i in p.instruments],
                    lens=[num(p.instrument_midi_seq_len(k)) for k in keys],
                    events=[proj(x) for x in p.get_all_sequence_events()])

    def do(self, e):
        r, status, ex = outcome(self.apply, e)
        return dict(res=dict(ok=1, r=r) if status == "ok" else dict(ok=0, r=[]), v=self.view())


def pplay(cmds):
    d = PieceDriver()
    return [d.do(e) for e in cmds]


def piece_trace(rng, quant):
    d, ev, pitch = PieceDriver(), [], [0]

    def run(e):
        ev.append(dict(e, x=d.do(e)))

    def note(ins=None):
        pitch[0] += 1
        s = rng.choice([0, 0, 4000, rng.randrange(0, 300) * 125])
        return dict(DEFAULT, s=s, e=s + rng.choice([1000, 4000, 8000]), p=pitch[0] % 128, v=rng.randrange(128),
                    ins=rng.randrange(4) if ins is None else ins[0], dr=0 if ins is None else ins[2])

    def ins():
        return rng.choice([[0, "Piano", 0], [1, "Piano", 0], [1, "Lead", 0], [2, "Drums", 1], [rng.randrange(128), "Pad", 0]])

    tracks = rng.sample(range(128), 3) + [0, 1, 127]
    for _ in range(rng.randrange(3, 25)):
        r, t = rng.random(), rng.choice(tracks)
        drums = [k for k in d.p if d.p[k].instrument.is_drum]
        if r < .2:
            run(dict(op="create", t=t, ins=ins()))
        elif r < .45:
            if pitch[0] < 90:
                run(dict(op="note", t=t, n=note([1, "", 1] if t in drums else None)))
        elif quant:
            if r < .7:
                run(dict(op="isq"))
            elif t in d.p:
                if not any(n.is_quantized() for n in d.p[t].notes):
                    run(dict(op="quantize", t=t, sps=rng.choice(OK_SPS), a4=rng.randrange(1, 5)))
        elif r < .55:
            run(dict(op="get", t=t, ins=ins()))
        elif r < .62:
            run(dict(op="idx", t=t))
        elif r < .68:
            run(dict(op="hold", t=t))
        elif r < .76:
            if pitch[0] < 90 and d.held is not None:
                run(dict(op="viahold", n=note([1, "", 1] if d.held.instrument.is_drum else None)))
        elif r < .82:
            i = ins()
            run(dict(op="put", how=rng.choice(["item", "set"]), t=t, ins=i, res=rng.choice([220, 480]), l=[note(i) for _ in range(rng.randrange(3))]))
        elif r < .88:
            run(dict(op="putlist", how=rng.choice(["item", "set"]), t=t, l=[note() for _ in range(rng.randrange(3))]))
        elif r < .94:
            run(dict(op="badtrack", how=rng.randrange(1, 13)))
        elif pitch[0] < 60:
            l = []
            for _ in range(rng.randrange(1, 5)):
                i = rng.choice([[0, "Piano", 0], [1, "Lead", 0], [2, "Drums", 1], [1, "Lead", 0]])
                i = rng.choice([i, i, i, i, i, ins()])
                l.append(dict(ins=i, res=rng.choice([220] * 9 + [480]), l=[note(i if rng.random() < .95 else None) for _ in range(rng.randrange(4))]))
            run(dict(op="make", l=l, res=rng.choice([220, 480]), one=rng.randrange(2)))
    return dict(ev=ev)


def C17(run):
    run.replay("MidiNoteSequences", run.generate("PieceGen"), pplay)
    run.validate("PieceTrace", [piece_trace(run.rng, False) for _ in range(run.n(250, 4000))], chunk=1500)
