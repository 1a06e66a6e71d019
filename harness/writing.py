"""C05: writing a piece and reading it back (spec/Reading.tla).  C06: what writing does to files (spec/Files.tla)."""
import os
from .notes import num
from .reading import ReadDriver, generated, random_file, last, piece, ticks
from . import reading
from neural_graph_composer.midi_reader import MidiReader


def in_ticks(p):
    """The piece with times as ticks, by inverting its own tempo map."""
    res, marks = p.resolution, []
    for s in p.tempo_signatures:
        t = float(s.midi_time)
        k = 0.0 if not marks else marks[-1][1] + (t - marks[-1][0]) * res * marks[-1][2] / 60
        marks.append((t, k, s.qpm))

    def tick(x):
        i = max([j for j, m in enumerate(marks) if m[0] <= x + 1e-9] or [0])
        k = marks[i][1] + (float(x) - marks[i][0]) * res * marks[i][2] / 60
        r = round(k)
        return r if abs(k - r) < .05 else -999996
    return tick


def tempo(qpm, n):
    """Milliseconds a quarter note; a file holds whole microseconds, so each writing may lose one."""
    q = 6e4 / qpm
    return round(q) if abs(q - round(q)) < .001 * n + .0005 else -999996


def reread(p, n):
    keep = reading.ticks
    tick = in_ticks(p)
    reading.ticks = lambda x, res: tick(x)
    try:
        x = piece(p)
    finally:
        reading.ticks = keep
    for q in x["seqs"]:
        q["cc"].sort(key=lambda c: (c["t"], c["n"], c["v"]))
        q["pb"].sort(key=lambda c: (c["t"], c["a"]))
    x["te"] = [dict(t=tick(s.midi_time), q=tempo(s.qpm, n)) for s in p.tempo_signatures]
    return x


class WriteDriver(ReadDriver):
    def do(self, e):
        if e["op"] != "rewrite":
            return super().do(e)
        p, same = MidiReader.read(self.data(e["t"])), 1
        path = os.path.join(self.tmp, "w.mid")
        for _ in range(e["n"]):
            if os.path.exists(path):
                os.unlink(path)
            before = piece(p)
            if e.get("via") == "serialize":     # the same without a file
                q = MidiReader.read(MidiReader.to_pretty_midi(p).serialize())
            else:
                MidiReader.write(p, path)
                q = MidiReader.read(path)
            same = min(same, int(piece(p) == before))
            p = q
        return dict(reread(p, e["n"]), same=same)


def C05(run):
    hs = [h for h in run.generate("ReadingGen", "Reading_write.cfg") if h[-1]["e"]["op"] == "rewrite"]
    rng = run.rng
    limit = run.n(2500, 60000)
    if len(hs) > limit:
        hs = rng.sample(hs, limit)

    def play(cmds):
        d = WriteDriver("all", run.tmp)
        return [d.do(e) for e in cmds]
    run.replay("write and read back", hs, play)
    traces = []
    feats = dict(tracks=1, drums=1, prog=1, cc=1, tempo=1, meta=1, name=1, other=1, len=40)
    while len(traces) < run.n(300, 6000):
        d, ev, evs = WriteDriver("all", run.tmp), [], list(random_file(rng, feats))
        t = last(rng, evs)
        e = dict(op="rewrite", t=t, n=rng.choice([1, 1, 2, 3]), via=rng.choice(["file", "file", "serialize"]))
        for x in evs:
            ev.append(dict(x, x=d.do(x)))
        if not any(q.notes for q in map(lambda k, p=MidiReader.read(d.data(t)): p[k], MidiReader.read(d.data(t)))):
            continue
        ev.append(dict(e, x=d.do(e)))
        traces.append(dict(ev=ev))
    run.validate("ReadingTrace", traces, cfg="ReadingTrace_all.cfg")


# ---------------------------------------------------------------------- C06
from .lib import outcome
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
from neural_graph_composer.midi.midi_note import MidiNote

OVER = dict(no=False, none=None, zero=0, yes=True)


def small_piece(k, ins=3):
    p = MidiNoteSequences()
    p[0] = MidiNoteSequence(notes=[MidiNote(60 + k + i, i * .5, i * .5 + .4, program=ins, instrument=ins) for i in range(2 + 3 * k)],
                            instrument=MidiInstrumentInfo(ins, "Lead %d" % k))
    return p


class FileDriver:
    def __init__(self, tmp):
        self.dir = os.path.join(tmp, "files")
        self.pieces = {"1": small_piece(1), "2": small_piece(2)}
        self.marks = {}
        for k, p in self.pieces.items():
            f = os.path.join(tmp, "ref%s.mid" % k)
            MidiReader.write(p, f, do_overwrite=True)
            with open(f, "rb") as h:
                self.marks[h.read()] = int(k)
        self.marks[b"someone else's"] = 3
        self.bad = dict(nothing=None, text="piece", onetrack=self.pieces["1"][0], empty=MidiNoteSequences(), unstorable=small_piece(1, 200))
        self.paths = {1: "a.mid", 2: "b.mid", 3: "folder", 4: os.path.join("missing", "c.mid")}
        self.wipe()

    def wipe(self):
        os.makedirs(os.path.join(self.dir, "folder"), exist_ok=True)
        for f in os.listdir(self.dir):
            if f != "folder":
                os.unlink(os.path.join(self.dir, f))

    def see(self):
        r = []
        for p in (1, 2):
            f = os.path.join(self.dir, self.paths[p])
            if not os.path.exists(f):
                r.append(0)
            else:
                with open(f, "rb") as h:
                    r.append(self.marks.get(h.read(), -1))
        known = {self.paths[1], self.paths[2], "folder"}
        extra = [f for f in os.listdir(self.dir) if f not in known] + os.listdir(os.path.join(self.dir, "folder"))
        return r, len(extra)

    def do(self, e):
        f = os.path.join(self.dir, self.paths[e["p"]])
        res = "ok"
        if e["op"] == "put":
            with open(f, "wb") as h:
                h.write(b"someone else's")
        elif e["op"] == "del":
            os.unlink(f)
        else:
            seq = self.pieces.get(e["seq"], self.bad.get(e["seq"]))
            name = dict(path=f, blank="", number=7, nothing=None, bytes=f.encode())[e["name"]]
            b = dict(none=(None, None), startneg=(-1, None), endneg=(None, -.5), starttext=("0", None), endtext=(None, "x"),
                     crossed=(2.0, 1.0), crossedzero=(.5, 0), startlist=([0], None))[e["bounds"]]
            kw = dict(from_start=b[0], to_end=b[1])
            if e["over"] != "no" or e["p"] == 2:
                kw["do_overwrite"] = OVER[e["over"]]
            res = outcome(MidiReader.write, seq, name, **kw)[1]
        files, extra = self.see()
        return dict(res=res, files=files, extra=extra)


def C06(run):
    d = FileDriver(run.tmp)

    def play(cmds):
        d.wipe()
        return [d.do(e) for e in cmds]
    run.replay("writes", run.generate("FilesGen"), play)
    rng, traces = run.rng, []
    for _ in range(run.n(200, 3000)):
        d.wipe()
        ev = []
        for _ in range(rng.randrange(3, 14)):
            p = rng.choice([1, 1, 2])
            r = rng.random()
            if r < .1:
                e = dict(op="put", p=p)
            elif r < .2 and d.see()[0][p - 1]:
                e = dict(op="del", p=p)
            else:
                pick = lambda good, bad: rng.choice(good) if rng.random() < .8 else rng.choice(bad)
                e = dict(op="write", p=rng.choice([p, p, p, 3, 4]), over=rng.choice(["no", "none", "zero", "yes", "yes"]),
                         seq=pick(["1", "2"], ["nothing", "text", "onetrack", "empty", "unstorable"]),
                         name=pick(["path"], ["blank", "number", "nothing", "bytes"]),
                         bounds=pick(["none"], ["startneg", "endneg", "starttext", "endtext", "crossed", "crossedzero", "startlist"]))
            ev.append(dict(e, x=d.do(e)))
        traces.append(dict(ev=ev))
    run.validate("FilesTrace", traces)


# ---------------------------------------------------------------------- C26
from neural_graph_composer.midi.midi_control_change import MidiControlChange
from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
from neural_graph_composer.midi.midi_time_signature import MidiTimeSignature, MidiTempoSignature
from neural_graph_composer.midi.midi_key_signature import MidiKeySignature, KeySignatureType


def latin(name):
    return name.encode("latin1", "replace").decode("latin1")


class SaveDriver:
    """A piece made in memory, in step with the specification's."""
    def __init__(self, tmp):
        self.path = os.path.join(tmp, "made.mid")
        self.te, self.res = [], 220

    def time(self, tick):
        x = 0.0
        for i, s in enumerate(self.te):
            hi = min(tick, self.te[i + 1]["t"]) if i + 1 < len(self.te) else tick
            if hi > s["t"]:
                x += (hi - s["t"]) * s["q"] / (1000 * self.res)
        return x

    def free(self):
        if os.path.exists(self.path):
            os.unlink(self.path)

    def do(self, e):
        op = e["op"]
        if op == "new":
            self.res, self.te = e["res"], e["te"]
            self.p = MidiNoteSequences(resolution=e["res"])
            for s in e["te"]:
                self.p.add_tempo_signature(MidiTempoSignature(self.time(s["t"]), 6e4 / s["q"], e["res"]))
            for s in e["ts"]:
                self.p.add_time_signatures(MidiTimeSignature(self.time(s["t"]), s["a"], s["b"]))
            for s in e["ks"]:
                k = MidiKeySignature(self.time(s["t"]), s["b"])
                k.mode = KeySignatureType.MINOR if s["a"] else KeySignatureType.MAJOR
                self.p.add_key_signatures(k)
        elif op == "seq":
            self.p[len(self.p)] = MidiNoteSequence(instrument=MidiInstrumentInfo(e["pr"], e.get("given", e["name"]), bool(e["dr"])),
                                                   resolution=self.res)
        elif op == "note":
            q, n = self.p[e["k"] - 1], e["n"]
            q.add_note(MidiNote(n["p"], self.time(n["s"]), self.time(n["e"]), velocity=n["v"], program=q.instrument.instrument_num,
                                instrument=q.instrument.instrument_num, is_drum=q.instrument.is_drum))
        elif op == "cc":
            self.p[e["k"] - 1].add_control_changes(MidiControlChange(e["n"]["n"], e["n"]["v"], self.time(e["n"]["t"])))
        elif op == "pb":
            self.p[e["k"] - 1].add_pitch_bends(MidiPitchBend(e["n"]["a"], self.time(e["n"]["t"])))
        elif op == "write":
            before = state(self.p)
            if e["via"] == "file":
                self.free()
                MidiReader.write(self.p, self.path)
                q = MidiReader.read(self.path)
            elif e["via"] == "over":
                MidiReader.write(self.p, self.path, do_overwrite=True)
                q = MidiReader.read(self.path)
            else:
                q = MidiReader.read(MidiReader.to_pretty_midi(self.p).serialize())
            return dict(reread(q, 1), same=int(state(self.p) == before))
        elif op == "save":
            before = state(self.p)
            self.free()
            if outcome(self.p[e["k"] - 1].to_midi_file, self.path)[1] == "raise":
                return "raise" if not os.path.exists(self.path) and state(self.p) == before else "damage"
            return dict(reread(MidiReader.read(self.path), 1), same=int(state(self.p) == before))
        elif op == "handed":
            got = []
            before, q = state(self.p), self.p[e["k"] - 1]
            q.to_midi_file(self.path, callback=lambda *a: got.append(a))
            (path, ins, notes, total), = got
            return dict(ins=[num(ins.instrument_num), latin(ins.name), int(bool(ins.is_drum))] if path == self.path and state(self.p) == before else [],
                        notes=[dict(p=num(n.pitch), v=num(n.velocity), s=self.tick(n.start_time), e=self.tick(n.end_time)) for n in notes],
                        tot=self.tick(total))
        return []

    def tick(self, x):
        """Only asked of pieces of one tempo (120) and resolution."""
        k = float(x) * 2 * self.res
        return round(k) if abs(k - round(k)) < .01 else -999996


def state(p):
    return repr([(k, p[k].instrument.name, p[k].instrument.instrument_num, p[k].total_time, p[k].notes, [(c.cc_number, c.cc_value, c.cc_time) for c in p[k].control_changes],
                  [(b.amount, b.midi_time) for b in p[k].pitch_bends]) for k in p]) + repr(
        (p.resolution, [(s.midi_time, s.qpm) for s in p.tempo_signatures], [(s.midi_time, s.numerator, s.denominator) for s in p.time_signatures],
         [(s.midi_time, s.midi_key, s.mode) for s in p.key_signatures]))


def C26(run):
    rng = run.rng
    hs = [h for h in run.generate("SavingGen") if h[-1]["e"]["op"] in ("write", "save", "handed")]
    limit = run.n(4000, 60000)
    if len(hs) > limit:
        hs = rng.sample(hs, limit)

    def play(cmds):
        d = SaveDriver(run.tmp)
        return [d.do(e) for e in cmds]
    run.replay("make and save", hs, play)
    traces = []
    for _ in range(run.n(300, 6000)):
        d, ev = SaveDriver(run.tmp), []

        def do(**e):
            ev.append(dict(e, x=d.do(e)))
        plain = rng.random() < .5
        span = rng.choice([6, 40, 900])
        cuts = lambda n: sorted(rng.sample(range(1, span + 2), rng.randrange(0, n)))
        res = 220 if plain else rng.choice([24, 96, 220, 384, 480, 960])
        do(op="new", res=res, te=[dict(t=0, q=500)] if plain else [dict(t=t, q=q) for t, q in zip([0] + cuts(4), rng.sample([100, 250, 333, 400, 500, 500, 600, 1999], 4))],
           ts=[dict(t=t, a=rng.randrange(1, 16), b=rng.choice([1, 2, 4, 8, 16])) for t in [0] + cuts(3)],
           ks=[dict(t=t, a=rng.randrange(2), b=rng.randrange(12)) for t in [0] + cuts(3)])
        n = 0
        for _ in range(rng.randrange(3, 40)):
            r = rng.random()
            if n == 0 or (r < .12 and n < rng.choice([3, 20])):
                name = rng.choice(["Lead", "Bass line", "x", "Fl\u00fbte", "\u0141\u00f3d\u017a", "\u7434"])
                do(op="seq", pr=rng.choice([0, 1, 24, 127, rng.randrange(128)]), name=latin(name), given=name, dr=int(rng.random() < .25))
                n += 1
            elif r < .8:
                s = rng.randrange(span)
                do(op="note", k=rng.randrange(1, n + 1), n=dict(p=rng.choice([60, 61, rng.randrange(128)]), v=rng.randrange(1, 128), s=s,
                                                                e=s + rng.choice([1, 2, rng.randrange(1, span + 1)])))
            elif r < .85:
                do(op="cc", k=rng.randrange(1, n + 1), n=dict(n=rng.randrange(128), v=rng.randrange(128), t=rng.randrange(span)))
            elif r < .9:
                do(op="pb", k=rng.randrange(1, n + 1), n=dict(a=rng.choice([-8192, -1, 0, 8191, rng.randrange(-8192, 8192)]), t=rng.randrange(span)))
            elif plain and r < .95:
                do(op=rng.choice(["save", "save", "handed"]), k=rng.randrange(1, n + 1))
            elif any(len(d.p[k].notes) for k in d.p):
                do(op="write", via=rng.choice(["file", "over", "serialize"]))
        if any(len(d.p[k].notes) for k in d.p):
            do(op="write", via=rng.choice(["file", "over", "serialize"]))
        traces.append(dict(ev=ev))
    run.validate("SavingTrace", traces)
