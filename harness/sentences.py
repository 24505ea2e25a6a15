"""Writing sentences of the reference language (spec/Parse.tla) as text."""
from core import *

_ROMAN = {"1": "I", "2": "II", "3": "III"}
_cache = {}


def title_forms(title, mn):
    """(prefix digit or "", stem prefixes) of a title."""
    d = title[0] if title[:2] in ("1 ", "2 ", "3 ") else ""
    stem = title[2:] if d else title
    return d, [stem[:k] for k in range(mn, len(stem) + 1)]


def accepted(n):
    """book -> names that denote it and no other book, for name table n."""
    if n in _cache:
        return _cache[n]
    names = {}
    for b in range(1, 67):
        ab, title, mn = CFG["names"][n - 1][b - 1]
        if not title:
            continue
        d, stems = title_forms(title, mn)
        l = {ab, title}
        for s in stems:
            s = s.rstrip()
            l |= {d + s, d + " " + s, _ROMAN[d] + " " + s} if d else {s}
        extras = extras_of(n, b)
        l |= {x for x in extras if "." not in x}
        names[b] = sorted(l)
    count = {}
    for b, l in names.items():
        for x in {y.lower().replace(" ", "") for y in l}:
            count[x] = count.get(x, 0) + 1
    # a shortened name that also is (a spelling of) another book's name isn't used
    _cache[n] = {b: [CFG["names"][n - 1][b - 1][0], CFG["names"][n - 1][b - 1][1]]
                 + [x for x in l if count[x.lower().replace(" ", "")] == 1] for b, l in names.items()}
    return _cache[n]


WSP = ["", "", "", " ", " ", "  ", "\t", "\n", " \r\n", "\f "]


def ws(rng, fancy):
    return rng.choice(WSP) if fancy else rng.choice(["", " "])


def book_name(rng, n, b, fancy):
    ns = accepted(n)[b]
    x = rng.choice(ns[:2]) if not fancy or rng.random() < .5 else rng.choice(ns)
    if fancy:
        x = rng.choice([x, x, x.upper(), x.lower(), "".join(rng.choice([c.upper(), c.lower()]) for c in x)])
        x = "".join((rng.choice([" ", "  ", "\t", "\n "]) if c == " " else c) for c in x)
    return x


def num(rng, v, fancy):
    s = str(v)
    if fancy and rng.random() < .1:
        s = "0" * rng.randint(1, 2) + s
    return s


class Text:
    """Writes a sentence and remembers where everything is."""
    def __init__(self, rec, rng, fancy=False, trail=None):
        self.seps = dict(zip(SEP_KEYS, rec.seps))
        self.n = rec.cfg[3]
        self.rng, self.fancy, self.trail = rng, fancy, trail
        self.out = ""
        self.spans = []

    def ref(self, r):
        rng = self.rng
        start = len(self.out)
        s = ""
        if r["bk"]:
            s += book_name(rng, self.n, r["bk"], self.fancy)
            if r["ns"]:
                s += rng.choice([" ", ws(rng, self.fancy)])
        if r["ns"]:
            s += num(rng, r["ns"][0], self.fancy)
            if len(r["ns"]) == 2:
                sep = self.seps["va" if rng.random() < .25 else "vs"]
                s += (ws(rng, True) if self.fancy and rng.random() < .2 else "") + sep \
                    + (ws(rng, True) if self.fancy and rng.random() < .2 else "") + num(rng, r["ns"][1], self.fancy)
        self.out += s
        return [start, len(self.out)]

    def write(self, sentence):
        rng = self.rng
        if self.fancy and rng.random() < .2:
            self.out += ws(rng, True)
        for i, it in enumerate(sentence):
            if i:
                self.out += (ws(rng, True) if self.fancy and rng.random() < .2 else "") + self.seps[it["sep"]] \
                    + rng.choice([" ", ws(rng, self.fancy)])
            p = self.ref(it["a"])
            q = [0, 0]
            if it["dual"]:
                self.out += (ws(rng, True) if self.fancy and rng.random() < .3 else "") + self.seps["rs"] \
                    + (ws(rng, True) if self.fancy and rng.random() < .3 else "")
                q = self.ref(it["b"])
            self.spans.append([p, q, [p[0], len(self.out)]])
        if self.trail:
            self.out += (ws(rng, True) if self.fancy else "") + self.seps[self.trail]
        if self.fancy and rng.random() < .2:
            self.out += ws(rng, True)
        return self.out


NONE = {"bk": 0, "ns": []}


def item(sep, a, b=None):
    return {"sep": sep, "a": a, "dual": b is not None, "b": b or NONE}


def random_ref(ctx, book, force, z):
    """A reference to something in (or near) the installed Bible; book: the book in force (0: none)."""
    rng, T = ctx.rng, ctx.rec.T
    b = rng.choice(T.order) if book == 0 or force or rng.random() < .35 else book
    if b not in T.pos:
        b = T.order[0]
    written = 0 if (b == book and not force and rng.random() < .8) else b
    n = len(T.mx[b])
    c = rng.choice([1, n, rng.randint(1, n), rng.randint(1, n), rng.randint(1, n), rng.choice([0, n + 1])])
    hi = T.mx[b][c - 1] if 1 <= c <= n else 9
    v = rng.choice([1, hi, rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, hi), rng.choice([0, hi + 1])])
    p = rng.random()
    ns = [] if p < .12 and written else [c] if p < .4 else [v] if p < .6 else [c, v]
    return {"bk": written, "ns": ns}, b


def random_sentence(ctx, z, multibook, length, wild=False):
    rng = ctx.rng
    out, book = [], 0
    for i in range(length):
        a, book = random_ref(ctx, book, i == 0 and not (wild and rng.random() < .2), z)
        b = None
        if rng.random() < .4:
            b, book2 = random_ref(ctx, book, False, z)
            if not multibook and not wild and b["bk"] not in (0, book):
                b = dict(b, bk=0)
                if not b["ns"]:
                    b = None
            if b is not None:
                book = b["bk"] or book
        out.append(item(("" if i == 0 else rng.choice(["maj", "min"])), a, b))
    return out
