"""Standard MIDI files from the specification's events, written byte by byte (no library of the code under test)."""
import struct

# sharps/flats of the keys, by tonic; the specification numbers keys by semitone
MAJOR = {0: 0, 1: -5, 2: 2, 3: -3, 4: 4, 5: -1, 6: 6, 7: 1, 8: -4, 9: 3, 10: -2, 11: 5}
MAJOR2 = {1: 7, 6: -6, 11: -7}
MINOR = {0: -3, 1: 4, 2: -1, 3: 6, 4: 1, 5: -4, 6: 3, 7: -2, 8: 5, 9: 0, 10: -5, 11: 2}
MINOR2 = {3: -6, 8: -7, 10: 7}


def vlq(n):
    out = [n & 0x7F]
    while n > 0x7F:
        n >>= 7
        out.append((n & 0x7F) | 0x80)
    return bytes(reversed(out))


def meta(t, data):
    return b"\xff" + bytes([t]) + vlq(len(data)) + data


def body(e, us=1000):
    op = e["op"]
    if op == "on":
        return bytes([0x90 | e["c"], e["p"], e["v"]])
    if op == "off":
        return bytes([0x90 | e["c"], e["p"], 0]) if e["w"] else bytes([0x80 | e["c"], e["p"], 64])
    if op == "prog":
        return bytes([0xC0 | e["c"], e["p"]])
    if op == "cc":
        return bytes([0xB0 | e["c"], e["n"], e["v"]])
    if op == "pb":
        a = e["a"] + 8192
        return bytes([0xE0 | e["c"], a & 0x7F, a >> 7])
    if op == "name":
        return meta(3, e["n"].encode("latin1"))
    if op == "tempo":
        return meta(0x51, struct.pack(">I", e["q"] * us)[1:])
    if op == "ts":
        return meta(0x58, bytes([e["a"], e["b"].bit_length() - 1, 24, 8]))
    if op == "ks":
        minor, key = e["a"], e["b"]
        sf = (MINOR2 if minor else MAJOR2).get(key) if e["t"] % 2 else None
        if sf is None:
            sf = (MINOR if minor else MAJOR)[key]
        return meta(0x59, struct.pack("b", sf) + bytes([minor]))
    if op == "other":
        k = e["k"]
        if k == "sysex":
            return b"\xf0" + vlq(3) + b"\x7d\x01\xf7"
        if k == "touch":
            return bytes([0xA0 | e["c"], e["p"], 33])
        if k == "pressure":
            return bytes([0xD0 | e["c"], 44])
        return meta({"text": 1, "lyrics": 5, "marker": 6}[k], b"word")
    raise ValueError(op)


def smf(res, tracks, fmt=None, us=1000):
    """tracks: lists of events with absolute ticks; the last of each is {op: end}."""
    out = b"MThd" + struct.pack(">IHHH", 6, (1 if len(tracks) > 1 else 0) if fmt is None else fmt, len(tracks), res)
    for tr in tracks:
        data, now = b"", 0
        for e in tr:
            data += vlq(e["t"] - now) + (meta(0x2F, b"") if e["op"] == "end" else body(e, us))
            now = e["t"]
        out += b"MTrk" + struct.pack(">I", len(data)) + data
    return out
