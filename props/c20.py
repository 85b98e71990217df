"""C20 Base64 follows RFC 4648 and round-trips every byte string."""
import base64
import string

from hypothesis import strategies as st

from vlib.core import same


@st.composite
def case(draw):
    k = draw(st.integers(0, 9))
    if k <= 5:
        b = draw(st.binary(max_size=40))
    elif k <= 7:
        b = bytes([draw(st.sampled_from([0, 1, 0x7f, 0x80, 0xff, 0x3f, 0xfb, 0xef, 61, 46]))]) * draw(st.integers(0, 60))
    else:
        unit = draw(st.binary(min_size=1, max_size=9))
        n = draw(st.sampled_from([255, 256, 257, 1000, 4096, 65535, 65536, 65537]))
        if draw(st.integers(0, 19)) == 11:
            n = draw(st.sampled_from([98303, 98304, 100000, 131073, 200001, 1000003]))
        b = (unit * (n // len(unit) + 1))[:n]
    return {"hex": b.hex()}


class PROP:
    ID = "C20"
    BACKENDS = ["src", "hdr", "gen"]
    QUICK, THOROUGH = 6000, 150000
    QUICK_S = 25
    RULE = ("byte strings of every length 0..60 and some up to a million with all byte values; encode must equal Python's "
            "base64.b64encode, decode(encode(x)) and decode(Python's text) must equal x. Exhaustive for all strings of 1 "
            "and 2 bytes in the first case of each shard. Non-trivial: at least one byte above 127 and a length that "
            "needs padding, or more than 255 bytes")
    TECHNIQUE = "property-based testing (Hypothesis), differential against Python's base64"
    done = False

    @staticmethod
    def strategy(tier, backend):
        return case()

    @staticmethod
    def one(api, b):
        t = base64.b64encode(b)
        same(api.b64encode(b), t, "base64 of %r" % b)
        same(api.b64decode(t), b, "bytes of %r" % t)

    @staticmethod
    def run(api, case, s):
        if not PROP.done:
            for i in range(256):
                PROP.one(api, bytes([i]))
                PROP.one(api, bytes([i, 0, 255 - i]))
            for i in range(0, 65536):
                PROP.one(api, bytes([i >> 8, i & 255]))
            PROP.done = True
            s.event("exhaustive for lengths 1 and 2")
        b = bytes.fromhex(case["hex"])
        PROP.one(api, b)
        s.nontrivial = (any(x > 127 for x in b) and len(b) % 3 != 0) or len(b) > 255
        s.event("length %% 3 == %d" % (len(b) % 3))
