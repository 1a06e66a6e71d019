"""C01 C02 C03 C07 C08: reading MIDI files (spec/Reading.tla)."""
import io, os, random
from . import smf
from .lib import outcome
from .notes import num
from .signatures import mode
from neural_graph_composer.midi.midi_instruments import MidiInstrumentMap
from neural_graph_composer.midi_reader import MidiReader
from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
import mido

DEFAULT_NAMES = {"Unknown"} | {n for _, n in MidiInstrumentMap}
CHANNEL = ("on", "off", "prog", "cc", "pb", "name", "tempo", "ts", "ks", "other", "end")


def ticks(x, res, u=1):
    """A time in seconds as a multiple of 1/(1000 res u) s."""
    v = float(x) * 1000 * res * u
    if v != v or abs(v) > 2 ** 30:
        return -999997
    r = round(v)
    return r if abs(v - r) < 1e-2 else -999996


def piece(p, u=1):
    """What the specification says about a piece that was read, with tempos in 1/u ms a quarter note."""
    res = p.resolution
    T = lambda x: ticks(x, res, u) if u != 1 else ticks(x, res)
    seqs = []
    for k in p:
        q = p[k]
        notes = [dict(p=num(n.pitch), v=num(n.velocity), s=T(n.start_time), e=T(n.end_time), nu=num(n.numerator), de=num(n.denominator))
                 for n in q.notes]
        pr, dr = num(q.instrument.instrument_num), int(bool(q.instrument.is_drum))
        if [n["e"] for n in notes] != sorted(n["e"] for n in notes):
            dr = -5                         # not in closing order
        if any(num(n.instrument) != pr or num(n.program) != pr or int(bool(n.is_drum)) != int(bool(q.instrument.is_drum)) for n in q.notes):
            dr = -6                         # a note that belongs to some other instrument
        if k != len(seqs):
            dr = -7                         # not numbered consecutively
        mark = lambda x: [num(x.program), num(x.instrument), int(bool(x.is_drum))]
        seqs.append(dict(pr=pr, name="" if q.instrument.name in DEFAULT_NAMES else q.instrument.name, dr=dr, tot=T(q.total_time),
                         notes=sorted(notes, key=lambda n: (n["e"], n["s"], n["p"], n["v"])),
                         cc=[dict(n=num(c.cc_number), v=num(c.cc_value), t=T(c.cc_time), m=mark(c)) for c in q.control_changes],
                         pb=[dict(a=num(b.amount), t=T(b.midi_time), m=mark(b)) for b in q.pitch_bends]))
    return dict(res=num(res), seqs=seqs, total=T(p.total_time),
                te=[dict(t=T(s.midi_time), q=num(6e4 * u / s.qpm)) for s in p.tempo_signatures],
                ts=[dict(t=T(s.midi_time), a=num(s.numerator), b=num(s.denominator)) for s in p.time_signatures],
                ks=[dict(t=T(s.midi_time), a=mode(s.mode), b=num(s.midi_key)) for s in p.key_signatures])


def everything(x):
    return sorted((n for q in x["seqs"] for n in q["notes"]), key=lambda n: (n["e"], n["s"], n["p"], n["v"]))


def view(focus, x):
    if focus == "notes":
        return dict(notes=everything(x))
    if focus == "seqs":
        return dict(res=x["res"], total=x["total"], seqs=[{f: q[f] for f in ("pr", "name", "dr", "tot", "notes")} for q in x["seqs"]])
    if focus == "cc":
        return dict(seqs=[{f: q[f] for f in ("cc", "pb")} for q in x["seqs"]])
    if focus == "tempo":
        return dict(te=x["te"], notes=everything(x))
    return x


class ReadDriver:
    def __init__(self, focus, tmp):
        self.focus, self.tmp, self.kept = focus, tmp, {}
        self.reset(480)

    def reset(self, res, u=1):
        self.u = u
        self.res, self.tracks, self.cur, self.fmt = res, [], [], None

    def data(self, t=None):
        tracks = self.tracks + ([self.cur + [dict(op="end", t=t)]] if t is not None else [])
        return smf.smf(self.res, tracks, self.fmt, 1000 // self.u)

    def read(self, e):
        data = self.data(e["t"])
        how = e["how"]
        if how == "bytes":
            return MidiReader.read(data)
        if how == "obj":
            obj = mido.MidiFile(file=io.BytesIO(data))
            before = [[str(m) for m in tr] for tr in obj.tracks]
            p = MidiReader.read(obj)
            if [[str(m) for m in tr] for tr in obj.tracks] != before:
                p.resolution = 1            # reading changed the object it was given
            return p
        path = os.path.join(self.tmp, "f.mid")
        with open(path, "wb") as f:
            f.write(data)
        if how == "piece":
            p = MidiNoteSequences.from_file(path, MidiReader())
            if p.filename != path:
                p.resolution = 2            # the piece does not know its file
            return p
        return MidiReader.from_file(path) if how == "from_file" else MidiReader().read(path)

    def do(self, e):
        op = e["op"]
        if op == "file":
            self.reset(e["res"], e.get("u", 1))
        elif op == "read":
            p = self.read(e)
            if "keep" in e:
                self.kept[e["keep"]] = (p, self.u)
            return view(self.focus, piece(p, self.u))
        elif op == "again":
            return view(self.focus, piece(*self.kept[e["keep"]]))
        elif op == "tick":
            m = CustomPrettyMIDI(io.BytesIO(self.data(self.cur[-1]["t"] if self.cur else 0)))
            x = m.tick_to_time(e["t"])
            return [ticks(x, self.res, self.u), m.time_to_tick(x)]
        elif op == "near":
            data = self.data(self.cur[-1]["t"] if self.cur else 0)
            m, fresh = CustomPrettyMIDI(io.BytesIO(data)), CustomPrettyMIDI(io.BytesIO(data))
            a, b = m.tick_to_time(e["t"]), m.tick_to_time(e["t"] + 1)
            x = a + (b - a) * e["f"] / 100
            return [m.time_to_tick(x), fresh.time_to_tick(x)]
        elif op == "bad":
            return outcome(MidiReader.read, bad(self, e))[1]
        else:
            self.cur.append({k: v for k, v in e.items()})
            if op == "end":
                self.tracks.append(self.cur)
                self.cur = []
        return []


def bad(d, e):
    kind = e["kind"]
    if kind == "none":
        return None
    if kind == "number":
        return 17
    if kind == "list":
        return [b"MThd"]
    if kind == "stream":
        return io.BytesIO(d.data(0))
    if kind == "missing":
        return os.path.join(d.tmp, "no such file.mid")
    if kind == "folder":
        return d.tmp
    if kind == "empty":
        return b""
    if kind == "junk":
        return b"RIFFjunkjunkjunk"
    if kind == "cut":
        return d.data(d.cur[-1]["t"] if d.cur else 0)[:-e["n"]]
    raise ValueError(kind)


def generated(run, name, focus):
    hs = [h for h in run.generate("ReadingGen", "Reading_%s.cfg" % name) if h[-1]["e"]["op"] in ("read", "tick", "near")]
    limit = run.n(6000, 120000)
    if len(hs) > limit:                     # all short behaviours, a sample of the longest
        longest = max(len(h) for h in hs)
        short = [h for h in hs if len(h) < longest]
        hs = short + random.Random(run.seed).sample([h for h in hs if len(h) == longest], max(0, limit - len(short)))

    def play(cmds):
        d = ReadDriver(focus, run.tmp)
        return [d.do(e) for e in cmds]
    run.replay("read " + name, hs, play)


def random_file(rng, o, res=None):
    """Events of a file; o: which features it may use."""
    res = res or rng.choice([24, 96, 220, 384, 480, 960] + ([1, 2, 15360, 32767] if o.get("fine") else []))
    u = 1000 if o.get("fine") and rng.random() < .4 else 1     # tempos of any number of microseconds
    yield dict(op="file", res=res, u=u)
    far = 2 ** 30 / u / 2000 / 1.5
    late = o.get("fine") and rng.random() < .4
    ntr = rng.choice([1, 1, 2, 3]) if o.get("tracks") else 1
    span = rng.choice([4, 40, 400] if u == 1 else [2, 6])
    q0 = 500 * u
    for tr in range(ntr):
        t, chans = 0, rng.sample(range(16), rng.randrange(1, 4)) if o.get("tracks") else [rng.randrange(0, 9), rng.randrange(9, 16)]
        if o.get("drums") and rng.random() < .4:
            chans.append(9)
        pitches = [rng.randrange(0, 128) for _ in range(rng.randrange(1, 5))]
        sounding = []
        if o.get("name") and rng.random() < .8:
            yield dict(op="name", t=0, n=rng.choice(["Lead", "Bass line", "x", "Strings 2"]))
        for _ in range(rng.randrange(0, o.get("len", 30))):
            t += rng.choice([0, 0, 0, 1, rng.randrange(0, span + 1)])
            if late and t < far / 3 and rng.random() < .1:
                t += rng.randrange(1, int(far / 2))
            c, p, r = rng.choice(chans), rng.choice(pitches), rng.random()
            if r < .4:
                yield dict(op="on", t=t, c=c, p=p, v=rng.randrange(1, 128))
                sounding.append((c, p))
            elif r < .65:
                if sounding and rng.random() < .7:
                    c, p = rng.choice(sounding)
                yield dict(op="off", t=t, c=c, p=p, w=rng.randrange(2))
            elif r < .72 and o.get("prog"):
                yield dict(op="prog", t=t, c=c, p=rng.choice([0, 1, 24, 127, rng.randrange(128)]))
            elif r < .82 and o.get("cc"):
                if rng.random() < .6:
                    yield dict(op="cc", t=t, c=c, n=rng.randrange(128), v=rng.randrange(128))
                else:
                    yield dict(op="pb", t=t, c=c, a=rng.choice([-8192, -1, 0, 8191, rng.randrange(-8192, 8192)]))
            elif r < .9 and o.get("tempo"):
                yield dict(op="tempo", t=t, q=q0 if (q0 := rng.choice([100 * u, 250 * u, 500 * u, 500 * u, 600 * u, rng.randrange(50 * u, 2000 * u), max(50 * u, q0 - 1), min(2000 * u, q0 + 1)])) else 0)
            elif r < .96 and o.get("meta"):
                if rng.random() < .5:
                    yield dict(op="ts", t=t, a=rng.randrange(1, 16), b=rng.choice([1, 2, 4, 8, 16, 32]))
                else:
                    yield dict(op="ks", t=t, a=rng.randrange(2), b=rng.randrange(12))
            elif o.get("other"):
                yield dict(op="other", t=t, k=rng.choice(["sysex", "touch", "pressure", "text", "lyrics", "marker"]), c=c, p=p)
        yield dict(op="end", t=t + rng.choice([0, 0, 1, 7, rng.randrange(0, 200 if u == 1 else 9)]))


def last(rng, evs):
    """The final track is left open: the read ends it at its own tick."""
    end = evs.pop()
    return end["t"]


def recorded(run, focus, o, n):
    traces = []
    for _ in range(n):
        d, ev, evs = ReadDriver(focus, run.tmp), [], list(random_file(run.rng, o))
        t = last(run.rng, evs)
        if o.get("ticks"):
            trk1 = not any(e["op"] == "end" for e in evs)
            if trk1:
                evs += [dict(op="tick", t=run.rng.choice([0, 1, t, t + 1, run.rng.randrange(0, t + 50)])) for _ in range(4)]
                evs += [dict(op="near", t=run.rng.choice([0, 1, t, t + 1, run.rng.randrange(0, t + 50)]), f=run.rng.choice([1, 30, 48, 52, 75, 98])) for _ in range(3)]
        evs.append(dict(op="read", t=t, how=run.rng.choice(["bytes", "path", "obj", "from_file"])))
        for e in evs:
            ev.append(dict(e, x=d.do(e)))
        traces.append(dict(ev=ev))
    run.validate("ReadingTrace", traces, cfg="ReadingTrace_%s.cfg" % focus)


def C01(run):
    generated(run, "notes", "notes")
    recorded(run, "notes", dict(tracks=1, drums=1, other=1, cc=1, prog=1, meta=1, fine=1, len=60), run.n(400, 8000))


def C02(run):
    generated(run, "tempo", "tempo")
    recorded(run, "tempo", dict(tracks=1, tempo=1, ticks=1, other=1, fine=1, len=60), run.n(400, 8000))


def C03(run):
    generated(run, "seqs", "seqs")
    recorded(run, "seqs", dict(tracks=1, drums=1, prog=1, name=1, fine=1, len=60), run.n(400, 8000))


def C07(run):
    generated(run, "cc", "cc")
    recorded(run, "cc", dict(tracks=1, drums=1, prog=1, cc=1, tempo=1, fine=1, len=80), run.n(400, 8000))


def C08(run):
    generated(run, "meta", "all")
    rng, traces = run.rng, []
    feats = dict(tracks=1, drums=1, prog=1, cc=1, tempo=1, meta=1, name=1, other=1, fine=1, len=40)
    for _ in range(run.n(200, 4000)):
        d, ev, keeps = ReadDriver("all", run.tmp), [], 0
        for _ in range(rng.randrange(1, 4)):
            evs = list(random_file(rng, feats))
            t = last(rng, evs)
            tail = []
            for how in rng.sample(["bytes", "path", "obj", "from_file", "piece"], rng.randrange(2, 5)):
                tail.append(dict(op="read", t=t, how=how, keep=keeps))
                keeps += 1
            for _ in range(rng.randrange(0, 3)):
                tail.insert(rng.randrange(len(tail) + 1), dict(op="bad", kind=rng.choice(
                    ["none", "number", "list", "stream", "missing", "folder", "empty", "junk", "cut"]), n=rng.randrange(1, 4)))
            evs += tail
            for e in evs:
                ev.append(dict(e, x=d.do(e)))
            if rng.random() < .8:
                k = rng.randrange(keeps)
                want = next(x for x in ev if x["op"] == "read" and x["keep"] == k)
                ev.append(dict(op="again", keep=k, was=want["x"], x=d.do(dict(op="again", keep=k))))
        traces.append(dict(ev=ev))
    run.validate("ReadingTrace", traces, cfg="ReadingTrace_all.cfg")
