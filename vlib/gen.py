"""Hypothesis building blocks. Every value drawn is plain JSON."""
import random

from hypothesis import strategies as st


def rng(draw):
    """A generator for bulk data; the case only holds what it produced."""
    return random.Random(draw(st.integers(0, 2 ** 32 - 1)))


def rarely(draw, n):
    return draw(st.integers(0, n - 1)) == n - 1


LONG = [257, 300, 513, 1000, 1001, 1024, 1025, 2000, 4096, 4097, 5000]


@st.composite
def long(draw, n=60):
    """0, or about once in n the length of a long list of questions."""
    if draw(st.integers(0, n - 1)) != n // 2 + 1:
        return 0
    return draw(st.sampled_from(LONG + [10001, 33000, 65537]))


def middle(draw, n):
    """About once in n, and hardly more often."""
    return draw(st.integers(0, n - 1)) == n // 2 + 1


@st.composite
def picked(draw, n, lo=1, hi=5, longest=5000):
    """Indexes below n, a few of them; of a large pool often all of it; rarely a long list."""
    if middle(draw, 250):
        r = rng(draw)
        return [r.randrange(n) for _ in range(r.choice([k for k in LONG if k <= longest]))]
    if n > 20 and draw(st.integers(0, 2)):
        k = draw(st.integers(0, n - 1))
        return [(i + k) % n for i in range(n)]
    return draw(st.lists(st.integers(0, n - 1), min_size=lo, max_size=hi))



def max_addr(base):
    """Largest address size with base**size <= 2**64."""
    n, v = 0, 1
    while v * base <= 1 << 64:
        v *= base
        n += 1
    return n


def entry_from_int(v, base, n):
    out = []
    for _ in range(n):
        out.append(v % base)
        v //= base
    return out


@st.composite
def entries(draw, base, n, lo=1, hi=6):
    """A pool of entries of size n: some independent, some near-copies of earlier ones; rarely a large one."""
    big = hi > 1 and rarely(draw, 50)
    if big or n > 70:
        r = rng(draw)
        k = max(hi, min(300, 8000 // n)) if big else hi
        return bulk_entries(r, base, n, r.randint(max(lo, k // 2), k))
    k = draw(st.integers(lo, hi))
    pool = []
    top = base ** n - 1
    for i in range(k):
        how = draw(st.integers(0, 6)) if pool else draw(st.sampled_from([0, 0, 0, 5, 6]))
        if how <= 1:
            pool.append(entry_from_int(draw(st.integers(0, top)), base, n))
        elif how <= 4:
            e = list(pool[draw(st.integers(0, len(pool) - 1))])
            for _ in range(draw(st.integers(1, 3))):
                e[draw(st.integers(0, n - 1))] = draw(st.integers(0, base - 1))
            pool.append(e)
        elif how == 5:
            pool.append([0] * n)
        else:
            pool.append([base - 1] * n)
    return pool


@st.composite
def pairs(draw, n, k, lo=1, hi=5):
    """[entry index, label index] pairs."""
    es = draw(picked(n, lo, hi))
    if len(es) > 20:
        a, b = draw(st.integers(0, k - 1)), draw(st.integers(0, k))
        return [[e, (a + i * b) % k] for i, e in enumerate(es)]
    return [[e, draw(st.integers(0, k - 1))] for e in es]


def bulk_entries(r, base, n, k):
    pool = []
    top = base ** n - 1
    for _ in range(k):
        if not pool or r.random() < 0.4:
            pool.append(entry_from_int(r.randint(0, top), base, n))
        elif r.random() < 0.1:
            pool.append([r.choice([0, base - 1])] * n)
        else:
            e = list(r.choice(pool))
            for _ in range(r.randint(1, max(3, n // 4))):
                e[r.randrange(n)] = r.choice([0, 1, base - 1, r.randrange(base)])
            pool.append(e)
    return pool


def flood(c, seed, n):
    """n entries that hardly repeat, a function of the seed."""
    r = random.Random(seed)
    top = c["base"] ** c["entry"] - 1
    return [entry_from_int(r.randint(0, top), c["base"], c["entry"]) for _ in range(n)]


BASES = [2, 2, 2, 2, 2, 2, 3, 4, 5, 7, 10, 16, 97, 255, 256, 257, 258, 1000, 65535, 65536, 65537, 65538, 2000000, 2147483647]


@st.composite
def shape(draw, wide=True, bases=True, max_entry=24):
    """{'base','addr','entry'}: small, medium, (address beyond 32 bits) wide or rarely large (up to 700 values)."""
    base = draw(st.sampled_from(BASES)) if bases else 2
    ma = max_addr(base)
    kind = draw(st.integers(0, 9))
    if rarely(draw, 60):
        r = rng(draw)
        addr = min(ma, r.choice([2, 2, 3, 4, 8]))
        entry = r.choice([64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 260, 300, 513, 700])
        entry = max(addr, entry + r.choice([0, 0, 1]))
    elif wide and kind == 9:
        addr = ma if rarely(draw, 3) else draw(st.integers(max(2, ma // 2), ma))
        entry = addr + draw(st.integers(0, addr + 3))
    elif kind >= 7:
        addr = min(ma, draw(st.integers(2, 12)))
        entry = max(addr, draw(st.integers(addr, max(addr, max_entry))))
    else:
        addr = min(ma, draw(st.integers(2, 4)))
        entry = draw(st.integers(addr, max(addr + 1, 12)))
    return {"base": base, "addr": addr, "entry": entry}


def huge(draw, n=1200):
    """About once in n: a configuration with more than 65536 RAMs, or with fewer RAMs over an entry of more than 65536
    positions, and a pool of entries for it."""
    if draw(st.integers(0, n - 1)) != n // 2 + 3:
        return None
    r = rng(draw)
    if r.randint(0, 1):
        c = {"base": 2, "addr": r.choice([16, 20, 33, 60]), "entry": r.choice([65537, 65600, 70001, 131073]),
             "mode": r.choice(["random", "indexes", "indexes", "incomplete"]), "ignoreZero": False}
        if c["mode"] == "indexes":
            c["indexes"] = r.sample(range(c["entry"]), c["entry"])
        return c, [[r.randrange(2) for _ in range(c["entry"])] for _ in range(2)]
    c = {"base": draw(st.sampled_from([2, 2, 3])), "addr": 2, "entry": 2 * 65536 + r.choice([2, 3, 40]),
         "mode": draw(st.sampled_from(["random", "incomplete"])), "ignoreZero": False}
    pool = [[r.randrange(c["base"]) for _ in range(c["entry"])] for _ in range(2)]
    return c, pool


@st.composite
def permutation(draw, n):
    if n > 70:
        r = rng(draw)
        return r.sample(range(n), n)
    return draw(st.permutations(range(n)))


@st.composite
def mapping(draw, sh, exact=False):
    """An explicit mapping: any number of RAMs of any size >= 1 that the base allows, positions repeated at will."""
    n = sh["entry"]
    if n > 70:
        r = rng(draw)
        a = sh["addr"]
        return [[r.randrange(n) for _ in range(a)] for _ in range(r.randint(1, n // a + 1))]
    if exact or draw(st.integers(0, 2)):
        a = sh["addr"]
        rams = draw(st.integers(1, max(1, n // a + 1)))
        sizes = [a] * rams
    else:
        sizes = draw(st.lists(st.integers(1, min(max_addr(sh["base"]), 6)), min_size=1, max_size=5))
    return [[draw(st.integers(0, n - 1)) for _ in range(s)] for s in sizes]


@st.composite
def config(draw, wide=True, bases=True, modes=("random", "incomplete", "indexes", "mapping"), max_entry=24):
    """A discriminator configuration."""
    sh = draw(shape(wide, bases, max_entry))
    mode = draw(st.sampled_from(list(modes)))
    c = dict(sh)
    c["mode"] = mode
    c["ignoreZero"] = draw(st.integers(0, 3)) == 0
    if mode == "indexes":
        c["indexes"] = list(draw(permutation(sh["entry"])))
    elif mode == "mapping":
        c["mapping"] = draw(mapping(sh))
    return c


def disc_kwargs(c):
    """Options of a Discriminator for a configuration."""
    kw = {}
    if c["ignoreZero"]:
        kw["ignoreZero"] = True
    if c["base"] != 2:
        kw["base"] = c["base"]
    if c["mode"] == "incomplete":
        kw["completeAddressing"] = False
    elif c["mode"] == "indexes":
        kw["indexes"] = c["indexes"]
    elif c["mode"] == "mapping":
        kw["mapping"] = c["mapping"]
    return kw


def n_rams(c):
    """Number of RAMs the configuration asks for."""
    if c["mode"] == "mapping":
        return len(c["mapping"])
    n, a = c["entry"], c["addr"]
    if c["mode"] in ("incomplete", "indexes"):
        return n // a
    return -(-n // a)


PLAIN_LABELS = ["a", "b", "c", "cold", "hot", "0", "1", "2", "10", "class"]
NASTY_LABELS = ["", "::", ":", "a::", "::a", "a::0", "a::1", "a::b", "a:", "a", "b", "a ", " a", ".", "..", "a.b",
                "#", "a#b", "__", "a__", "/", "a/b", "a/b/c", "//", "\\", "a\\b\\c", "\"", "'", "\n", "\r\n", "\t", "\x00", "a\x00", "a\x00b", "\x00b\x00c",
                "\x00a", "\x7f", "\u00e9", "e\u0301", "\u65e5\u672c", "\U0001f600", "null", "true", "0", "00", "1",
                "10", "9", "-1", "{", "}", "[]", "%s", "%n", "A", "Z", "~", "\ufeff", "\u2028", "=", "==", "YQ==",
                "classes", "data", "mapping", "a" * 70, "a" * 71, "b" * 257, "\u00e9" * 40, "x" * 1100, "unsupervised_cluster", "\u00ff", "\u0080", "\uffff"]

PIECES = ["a", "b", "ab", "cat", "A", "0", "1", "10", ".0", ".5", ".", "-", "_", "__", "::", ":", "#", "/", "\\", " ", "\t", "\n", "\x00",
          "=", "\"", "'", ",", ";", "(", ")", "[0]", "{}", "%", "&", "$", "*", "?", "+", "e5", "\u00e9", "\u65e5", ".json", ".wpkds", ".wdpkg"]
text_label = st.one_of(st.text(st.characters(exclude_categories=("Cs",)), max_size=6),
                       st.lists(st.sampled_from(PIECES), min_size=1, max_size=5).map("".join))


@st.composite
def labels(draw, lo=1, hi=4, nasty=True, deep=False):
    """Distinct class labels; rarely many of them; `deep`: some of tens of thousands of characters (for models with small
    counts only: bleaching copies labels)."""
    if hi > max(lo, 2) and rarely(draw, 50):
        r = rng(draw)
        form = draw(st.sampled_from(["%d", "c%d", "%03d", "a::%d", "class_%d"] if nasty else ["%d", "c%d", "%03d"]))
        n = r.randint(9, 34)
        if rarely(draw, 6):
            n = r.choice([64, 65, 66, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300])
        return [form % i for i in r.sample(range(max(40, n + 3)), n)]
    if nasty and hi > 1 and rarely(draw, 12):
        # labels that differ only behind, or only in the length of, a long common prefix
        cut = draw(st.sampled_from([7, 8, 15, 16, 31, 32, 63, 64, 65, 70, 71, 100, 127, 128, 255, 256, 300, 1100]))
        if deep and rarely(draw, 6):
            cut = draw(st.sampled_from([2050, 4097, 5000, 8200, 16400, 33000, 66000, 65536, 66000, 70000]))
        head = (draw(st.sampled_from(["p", "ab", "a::", "\u00e9", "0"])) * cut)[:cut]
        tails = draw(st.lists(st.one_of(st.sampled_from(["", "0", "1", "10", "a", "b", "::", "aa", "\u00e9"]), text_label),
                              min_size=max(lo, min(2, hi)), max_size=hi, unique=True))
        return [head + t for t in tails]
    if not nasty:
        return draw(st.lists(st.sampled_from(PLAIN_LABELS), min_size=lo, max_size=hi, unique=True))
    how = draw(st.integers(0, 3))
    if how == 0:
        return draw(st.lists(st.sampled_from(PLAIN_LABELS), min_size=lo, max_size=hi, unique=True))
    if how == 1:
        return draw(st.lists(text_label, min_size=lo, max_size=hi, unique=True))
    return draw(st.lists(st.one_of(st.sampled_from(NASTY_LABELS), text_label), min_size=lo, max_size=hi,
                         unique=True))


clock = st.one_of(st.integers(0, 40), st.integers(0, 2 ** 31 - 1))

# how often one entry is repeated: mostly a few times, sometimes around the limits of small integers
times = st.one_of(*([st.integers(1, 3)] * 12 + [st.integers(1, 40)] * 3 +
                    [st.sampled_from([127, 128, 129, 200, 255, 256, 257, 300])] * 2))
times_big = st.one_of(*([times] * 40 + [st.sampled_from([32767, 32768, 40000, 65535, 65536, 70000])]))
