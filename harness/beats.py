"""C09: beats, bars and the end of a file that was read (spec/Beats.tla)."""
import io, warnings
import numpy as np
from . import smf
from .lib import outcome
from .notes import num
from .reading import ticks
from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI


class BeatDriver:
    def __init__(self):
        self.res, self.tracks, self.cur, self.m = 480, [], [], None

    def do(self, e):
        op = e["op"]
        if op == "file":
            self.__init__()
            self.res = e["res"]
        elif op in ("beats", "bars", "ending"):
            if self.m is None or self.at != e["t"]:          # several questions to one object
                self.m = CustomPrettyMIDI(io.BytesIO(smf.smf(self.res, self.tracks + [self.cur + [dict(op="end", t=e["t"])]])))
                self.at = e["t"]
            m = self.m
            if op == "ending":
                return [ticks(m.get_end_time(), self.res)]
            k = e["start"]
            start = m.tick_to_time(k) if k else 0.
            return [ticks(x, self.res) for x in (m.get_beats if op == "beats" else m.get_downbeats)(start)]
        else:
            self.m = None
            self.cur.append(e)
            if op == "end":
                self.tracks.append(self.cur)
                self.cur = []
        return []


def recorded(evs):
    d, ev = BeatDriver(), []
    for e in evs:
        x, res, err = outcome(d.do, e)
        ev.append(dict(e, x=x if res == "ok" else [-1, err]))
    return dict(ev=ev)


def rfile(rng):
    res = rng.choice([24, 96, 480])
    g, t = res // 8, 0
    yield dict(op="file", res=res)
    sig = rng.choice([[4, 4]] * 2 + [[a, b] for a in (1, 2, 3, 5, 6, 7, 9, 12, 15) for b in (1, 2, 4, 8, 16, 32)])
    if rng.random() < .8:
        yield dict(op="ts", t=0, a=sig[0], b=sig[1])
    sounding = None
    for _ in range(rng.randint(0, 14)):
        t += g * rng.choice([0, 0, 1, 2, 3, 5, 8, 8, 16, 24, rng.randint(0, 60)])
        k = rng.random()
        if k < .3:
            a, b = rng.choice([[4, 4], [3, 4], [6, 8], [12, 8], [2, 2], [7, 8], [rng.randint(1, 15), rng.choice([1, 2, 4, 8, 16, 32])]])
            yield dict(op="ts", t=t, a=a, b=b)
        elif k < .6:
            yield dict(op="tempo", t=t, q=rng.choice([100, 250, 333, 500, 600, 1500, rng.randint(100, 2000)]))
        elif k < .8:
            if sounding is None:
                sounding = rng.randint(0, 127)
                yield dict(op="on", t=t, c=rng.choice([0, 0, 9]), p=sounding, v=90)
            else:
                yield dict(op="off", t=t, c=0, p=sounding, w=0)
                sounding = None
        elif k < .87:
            yield dict(op="cc", t=t, c=0, n=7, v=3) if rng.random() < .5 else dict(op="pb", t=t, c=0, a=5)
        elif k < .94:
            yield dict(op="ks", t=t, a=0, b=7)
        else:
            yield dict(op="other", t=t, k=rng.choice(["lyrics", "marker"]), c=0, p=1)
    if rng.random() < .4:
        t += g * rng.randint(1, 9)
        yield dict(op="end", t=t)
        yield dict(op="on", t=0, c=1, p=50, v=1)
        t = g * rng.randint(1, 200)
    else:
        t += g * rng.randint(1, 40)
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["beats", "beats", "bars", "bars", "ending"])
        yield dict(op=op, t=t, start=g * rng.choice([0, 0, 0, 1, 8, 13, rng.randint(0, 80)]))


def C09(run):
    rng = run.rng
    hs = [[s["e"] for s in h] for h in run.generate("BeatsGen")]
    hs = [h for h in hs if h and h[-1]["op"] in ("beats", "bars", "ending")]
    few = run.n(5000, 60000)
    if len(hs) > few:
        hs = rng.sample(hs, few)
    run.validate("BeatsTrace", [recorded(h) for h in hs] + [recorded(list(rfile(rng))) for _ in range(run.n(1500, 30000))])


# ------------------------------------------------------------ C19: retiming
class RetimeDriver(BeatDriver):
    """Times are recorded in 1/12800 s (spec/Retiming.tla)."""

    def do(self, e):
        if e["op"] != "retime":
            return super().do(e)
        m = CustomPrettyMIDI(io.BytesIO(smf.smf(self.res, self.tracks + [self.cur + [dict(op="end", t=e["t"])]])))
        at = lambda t: round(float(t) * 12800) if abs(t) < 100 else -999999
        notes = lambda i: [[at(n.start), at(n.end), n.pitch, n.velocity] for n in i.notes]
        m.adjust_times(np.array([m.tick_to_time(k) for k in e["o"]]), np.array(e["n"]) / 200)
        x = dict(insts=[dict(notes=notes(i), cc=[[at(c.time), c.number, c.value] for c in i.control_changes],
                             pb=[[at(b.time), b.pitch] for b in i.pitch_bends]) for i in m.instruments],
                 ts=[[at(s.time), s.numerator, s.denominator] for s in m.time_signature_changes],
                 ks=[[at(s.time), s.key_number // 12, s.key_number % 12] for s in m.key_signature_changes],
                 ly=[[at(w.time)] for w in m.lyrics],
                 bars=[at(t) for t in m.get_downbeats(m.time_signature_changes[0].time)] if m.time_signature_changes else [],
                 end=at(m.get_end_time()), failed="", again=[])
        way = sorted(dict(reversed(list(zip(e["o"], e["n"])))).items())
        if all(b[1] > max(v for _, v in way[:k + 1]) for k, b in enumerate(way[1:])):
            buf = io.BytesIO()
            m.serialize().save(file=buf)
            x["again"] = [sorted(notes(i), key=lambda n: (n[0], n[2])) for i in CustomPrettyMIDI(io.BytesIO(buf.getvalue())).instruments if i.notes]
        return x


def retimed(evs):
    d, ev = RetimeDriver(), []
    for e in evs:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x, res, err = outcome(d.do, e)
        none = dict(insts=[], ts=[], ks=[], ly=[], bars=[], end=0, again=[])
        ev.append(dict(e, x=x if res == "ok" else dict(none, failed=err)))
    return dict(ev=ev)


def rmove(rng):
    t, on, used, since = 0, None, 0, 0
    yield dict(op="file", res=24)
    yield dict(op="tempo", t=0, q=120 * rng.randint(1, 5))
    top = 200
    for trk in range(rng.choice([1, 1, 2, 3])):
        if trk:
            yield dict(op="end", t=t)
        t, on, c = 0, None, rng.choice([0, 3, 9])
        if not trk and rng.random() < .6:
            a, b = rng.choice([[4, 4], [3, 4], [6, 8], [2, 2], [5, 8]])
            yield dict(op="ts", t=0, a=a, b=b)
        for _ in range(rng.randint(0, 12)):
            t += rng.choice([0, 1, 5, 12, 12, 24, 24, 36])
            if t > top:
                t = top
                break
            k = rng.random()
            if k < .5:
                if on is None:
                    on = (used := used + 1) % 128
                    yield dict(op="on", t=t, c=c, p=on, v=rng.randint(1, 127))
                    since = t
                elif t > since:
                    yield dict(op="off", t=t, c=c, p=on, w=0)
                    on = None
            elif k < .65:
                yield dict(op="cc", t=t, c=c, n=rng.choice([7, 64]), v=rng.randint(0, 127))
            elif k < .72:
                yield dict(op="pb", t=t, c=c, a=rng.randint(-8192, 8191))
            elif not trk:
                if k < .8:
                    yield dict(op="tempo", t=t, q=120 * rng.randint(1, 5))
                elif k < .88:
                    a, b = rng.choice([[4, 4], [3, 4], [6, 8], [2, 2], [7, 8], [12, 8]])
                    yield dict(op="ts", t=t, a=a, b=b)
                elif k < .94:
                    yield dict(op="ks", t=t, a=rng.randint(0, 1), b=rng.randint(0, 11))
                else:
                    yield dict(op="other", t=t, k="lyrics", c=0, p=1)
        if on is not None:
            t = min(t + 7, top + 7)
            yield dict(op="off", t=t, c=c, p=on, w=0)
    t += rng.randint(1, 20)
    k = rng.randint(2, 5)
    o = sorted(rng.sample(range(0, top + 30), k)) if rng.random() < .5 else sorted(rng.sample(range(0, top + 48, 12), k))
    if rng.random() < .5:
        o[0] = 0
    n = [25 * rng.choice([0, 0, 0, 1, 4])]
    for a, b in zip(o, o[1:]):
        n.append(n[-1] + rng.choice([b - a, 2 * (b - a), 3 * (b - a), (b - a + 1) // 2, rng.randint(1, min(300, 20 * (b - a))), 0 if rng.random() < .3 else min(40, 20 * (b - a))]))
    if n[-1] == n[0]:
        n[-1] += 50
    if rng.random() < .2:                                    # out of order, repeated, going back
        pairs = list(zip(o, n))
        pairs += [(a, 25 * rng.randint(0, 20)) for a in rng.sample(o, rng.randint(0, 2))]
        if rng.random() < .5:
            rng.shuffle(pairs)
        if rng.random() < .5:
            j = rng.randrange(len(pairs))
            pairs[j] = (pairs[j][0], 25 * rng.randint(0, 20))
        way = dict(reversed(pairs))
        up = [max(way[b] for b in way if b <= a) for a in sorted(way)]
        # some time remains, at tempos a file can hold
        if up[-1] > up[0] and all(v - u <= 20 * (b - a) for a, b, u, v in zip(sorted(way), sorted(way)[1:], up, up[1:])):
            o, n = [a for a, _ in pairs], [b for _, b in pairs]
    yield dict(op="retime", t=t, o=o, n=n)


def C19(run):
    rng = run.rng
    hs = [[s["e"] for s in h] for h in run.generate("RetimingGen")]
    hs = [h for h in hs if h and h[-1]["op"] == "retime"]
    few = run.n(3000, 40000)
    if len(hs) > few:
        hs = rng.sample(hs, few)
    run.validate("RetimingTrace", [retimed(h) for h in hs] + [retimed(list(rmove(rng))) for _ in range(run.n(3000, 60000))])
