"""Reference models: what wisardpkg is specified to compute, written as plainly as possible.

RAM contents are kept as counters keyed by the *tuple of observed values*, never by an address, so no
arithmetic of the library is repeated here.
"""
import base64
import json
import struct
from collections import Counter


def bkey(label):
    """std::map<std::string, ...> orders labels bytewise."""
    return label.encode("utf-8", "surrogatepass")


class RefDisc:
    def __init__(self, mapping, base=2, ignore_zero=False):
        self.mapping = [list(m) for m in mapping]
        self.base = base
        self.ignore_zero = ignore_zero
        self.rams = [Counter() for _ in self.mapping]
        self.count = 0

    def keys(self, x):
        return [tuple(x[p] for p in m) for m in self.mapping]

    def train(self, x, times=1):
        for ram, k in zip(self.rams, self.keys(x)):
            ram[k] += times
        self.count += times

    def untrain(self, x, times=1):
        for ram, k in zip(self.rams, self.keys(x)):
            ram[k] -= times
        self.count -= times

    def votes(self, x):
        out = []
        for ram, k in zip(self.rams, self.keys(x)):
            if self.ignore_zero and not any(k):
                out.append(0)
            else:
                out.append(ram.get(k, 0))
        return out

    def mental(self, entry_size):
        img = [0] * entry_size
        for ram, m in zip(self.rams, self.mapping):
            for k, c in ram.items():
                if c:
                    for p, v in zip(m, k):
                        if v:
                            img[p] += c
        return img

    def patterns(self):
        return sum(len(r) for r in self.rams)


def bleach(votes, activated=True, confidence=1):
    """votes: {candidate: [response per RAM]} -> ({candidate: active RAMs}, final threshold)."""
    b = 1
    while True:
        counts = {c: sum(1 for v in vs if v >= b) for c, vs in votes.items()}
        if not activated or len(counts) < 2:
            return counts, b
        top = sorted(counts.values(), reverse=True)
        if top[0] - top[1] >= confidence or top[0] <= 1:
            return counts, b
        # jump: nothing changes before the next response above b
        b += 1


def bleach_fast(votes, activated=True, confidence=1):
    """Same as bleach, skipping thresholds at which no count changes."""
    values = sorted({v for vs in votes.values() for v in vs if v >= 1})
    b = 1
    i = 0
    while True:
        counts = {c: sum(1 for v in vs if v >= b) for c, vs in votes.items()}
        if not activated or len(counts) < 2:
            return counts, b
        top = sorted(counts.values(), reverse=True)
        if top[0] - top[1] >= confidence or top[0] <= 1:
            return counts, b
        while i < len(values) and values[i] < b:
            i += 1
        b = values[i] + 1 if i < len(values) else b + 1


def winner(counts):
    """The highest count, the last one in label order on a tie; '' without candidates."""
    best, label = None, ""
    for c in sorted(counts, key=bkey):
        if best is None or counts[c] >= best:
            best, label = counts[c], c
    return label


def winners(counts):
    """All the candidates with the highest count."""
    if not counts:
        return []
    m = max(counts.values())
    return [c for c in counts if counts[c] == m]


# ---- saved models -------------------------------------------------------------------------------

def decode_ram(text):
    raw = base64.b64decode(text, validate=True)
    assert len(raw) % 12 == 0, "RAM data of %d bytes" % len(raw)
    out = {}
    for i in range(0, len(raw), 12):
        addr, val = struct.unpack("<Qi", raw[i:i + 12])
        assert addr not in out, "address %d stored twice" % addr
        out[addr] = val
    return out


def encode_ram(d):
    return base64.b64encode(b"".join(struct.pack("<Qi", a, v) for a, v in d.items())).decode()


def decode_data(text, rams):
    parts = text.split(".")
    assert len(parts) == rams, "%d RAM blocks for %d RAMs" % (len(parts), rams)
    return [decode_ram(p) for p in parts]


def nonzero(d):
    return {a: v for a, v in d.items() if v != 0}


def disc_content(d, keep_zero=False, data=None):
    """Content of a saved discriminator: entry size, addressing, RAM contents, number of trainings."""
    mapping = d["mapping"]
    rams = decode_data(d["data"] if data is None else data, len(mapping))
    if not keep_zero:
        rams = [nonzero(r) for r in rams]
    return {"entrySize": d["entrySize"], "mapping": mapping, "count": d["count"], "rams": rams}


OPTIONS_W = ["addressSize", "bleachingActivated", "verbose", "indexes", "ignoreZero", "completeAddressing",
             "base", "confidence", "returnConfidence", "returnActivationDegree", "returnClassesDegrees"]
OPTIONS_C = ["addressSize", "minScore", "threshold", "discriminatorsLimit", "bleachingActivated", "verbose",
             "ignoreZero", "completeAddressing", "base", "confidence", "returnConfidence",
             "returnActivationDegree", "returnClassesDegrees"]


def wisard_content(text, keep_zero=False):
    """(options, {label: discriminator content}) of Wisard.json()."""
    j = json.loads(text)
    opts = {k: j.get(k) for k in OPTIONS_W}
    classes = {}
    for label, d in (j.get("classes") or {}).items():
        classes[label] = disc_content(d, keep_zero)
    return opts, classes


def cluster_content(c, keep_zero=False):
    return {"entrySize": c["entrySize"],
            "discriminators": [disc_content(d, keep_zero) for d in (c.get("discriminators") or [])]}


def cluswisard_content(text, keep_zero=False):
    j = json.loads(text)
    opts = {k: j.get(k) for k in OPTIONS_C}
    clusters = {l: cluster_content(c, keep_zero) for l, c in (j.get("clusters") or {}).items()}
    un = j.get("unsupervisedCluster")
    return opts, clusters, (cluster_content(un, keep_zero) if un else None)


def key_to_pattern(addr, base, n):
    out = []
    for _ in range(n):
        out.append(addr % base)
        addr //= base
    return tuple(out)


def ram_patterns(ram, base, n):
    """Decodes addresses of saved RAM contents to observed values (first observed position first)."""
    return {key_to_pattern(a, base, n): v for a, v in ram.items()}
