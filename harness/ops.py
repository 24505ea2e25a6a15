"""One recorded call per function.  f is the flags argument actually passed (-1 = omitted/None); the caller sees to
it that the inputs are meaningful under the flags in force."""
from core import *
import itertools
import core


def kw(f):
    return {} if f == -1 else {"flags": FL[f]}


def kwn(f):
    """As kw, but sometimes writes flags=None out."""
    return {"flags": None} if f == -1 else {"flags": FL[f]}


# --- books and verses
def book_facts(rec, b, f):
    B = BOOK[b]
    rec.call("b.nchap", f, lambda: B.chap_count(), b=b, c=0)
    rec.call("b.minchap", f, lambda: B.min_chap_num(), b=b, c=0)
    rec.call("b.maxchap", f, lambda: B.max_chap_num(), b=b, c=0)
    rec.call("b.nverse", f, lambda: B.verse_count(**kw(f)), b=b, c=0)
    rec.call("b.first", f, lambda: B.first_verse(**kw(f)), b=b, c=-1)
    rec.call("b.last", f, lambda: B.last_verse(), b=b, c=-1)
    book_place(rec, b, f)


def book_place(rec, b, f):
    B = BOOK[b]
    rec.call("b.next", f, lambda: B.next(), b=b, c=0)
    rec.call("b.prev", f, lambda: B.prev(), b=b, c=0)
    rec.call("b.order", f, lambda: B.order, b=b, c=0)


def chap_facts(rec, b, c, f):
    B = BOOK[b]
    rec.call("b.minv", f, lambda: B.min_verse_num(c, **kwn(f)), b=b, c=c)
    rec.call("b.maxv", f, lambda: B.max_verse_num(c), b=b, c=c)
    rec.call("b.first", f, lambda: B.first_verse(c, **kw(f)), b=b, c=c)
    rec.call("b.last", f, lambda: B.last_verse(c), b=b, c=c)


def verse_new(rec, x, f, name=None):
    book = BOOK[x[0]] if name is None else name
    rec.call("v.new", f, lambda: BibleVerse(book, x[1], x[2], **kw(f)), b=x[0], c=x[1], n=x[2])


def verse_copy(rec, x, f):
    v = V(x)
    rec.call("v.copy", f, lambda: BibleVerse(v, **kw(f)), x=lst(x))


def verse_facts(rec, x, f, c=-1, b=-1):
    v = V(x)
    C = () if c == -1 else (c,)
    Bk = () if b == -1 else (BOOK[b],)
    X = dict(x=lst(x), c=c, b=b)
    rec.call("v.minchap", f, lambda: v.min_chap_num(), **X)
    rec.call("v.maxchap", f, lambda: v.max_chap_num(), **X)
    rec.call("v.minv", f, lambda: v.min_verse_num(*C, **kw(f)), **X)
    rec.call("v.maxv", f, lambda: v.max_verse_num(*C), **X)
    rec.call("v.first", f, lambda: v.first_verse(*C, **kw(f)), **X)
    rec.call("v.last", f, lambda: v.last_verse(*C), **X)
    rec.call("v.isfirstc", f, lambda: v.is_first_in_chap(*C, **kw(f)), **X)
    rec.call("v.islastc", f, lambda: v.is_last_in_chap(*C), **X)
    rec.call("v.isfirstb", f, lambda: v.is_first_in_book(*Bk, **kw(f)), **X)
    rec.call("v.islastb", f, lambda: v.is_last_in_book(*Bk), **X)


# --- arithmetic
def add(rec, x, n, f, op=False):
    v = V(x)
    rec.call("v.add", f, (lambda: v + n) if op else (lambda: v.add(n, **kwn(f))), x=lst(x), n=n)


def sub(rec, x, n, f, op=False):
    v = V(x)
    rec.call("v.sub", f, (lambda: v - n) if op else (lambda: v.subtract(n, **kwn(f))), x=lst(x), n=n)


def diff(rec, x, y, f, op=False):
    v, w = V(x), V(y)
    rec.call("v.diff", f, (lambda: v - w) if op else (lambda: v.subtract(w, **kwn(f))), x=lst(x), y=lst(y))


# --- comparison
def _cmp(a, b):
    return (a < b, a <= b, a > b, a >= b, a == b, a != b)


def cmp(rec, kind, x, y, a, b):
    rec.call("cmp." + kind, -1, lambda: _cmp(a, b), x=lst(x), y=lst(y), h=(hash(a) == hash(b)))


def immutable(rec, o, what):
    """Assigning to any public attribute of a verse or range fails and changes nothing."""
    def go():
        before, h = enc(o), hash(o)
        ok = True
        for a in ("book", "chap_num", "verse_num") if isinstance(o, BibleVerse) else ("start", "end"):
            for action in (lambda: setattr(o, a, getattr(o, a)), lambda: setattr(o, a, 1), lambda: delattr(o, a)):
                try:
                    action()
                    ok = False
                except AttributeError:
                    pass
        return ok and enc(o) == before and hash(o) == h
    rec.call("cmp.imm", -1, go, x=lst(what))


def list_eq(rec, x, y, how):
    a, b = L(x), L(y)
    go = {0: lambda: a == b, 1: lambda: a.equals(b, compare_groups=False), 2: lambda: a.equals(b),
          3: lambda: not (a != b)}[how]
    rec.call("cmp.list", -1, go, x=lst(x), y=lst(y), n=1 if how == 1 else 0)


# --- ranges
def r_parts(rec, a, f, trim, names=None, text=0):
    """a: six positions, -1 omitted.  trim: leave trailing omitted arguments out."""
    args = [None if p == -1 else p for p in a]
    for i in (0, 3):
        if args[i] is not None:
            args[i] = BOOK[args[i]] if names is None else names(args[i])
    if text:        # numbers can also be given as text
        args = [str(p) if i % 3 and p is not None and text >> i & 1 else p for i, p in enumerate(args)]
    if trim:
        while len(args) > 1 and args[-1] is None:
            args.pop()
    if len(args) == 1 and isinstance(args[0], str):
        args.append(None)       # a single string would be parsed
    rec.call("r.parts", f, lambda: BibleRange(*args, **kw(f)), a=list(a))


def r_kw(rec, x, y, f):
    a, b = V(x), V(y)
    rec.call("r.kw", f, lambda: BibleRange(start=a, end=b, **kw(f)), x=lst(x), y=lst(y))


def r_copy(rec, r, f):
    a = R(r)
    rec.call("r.copy", f, lambda: BibleRange(a, **kw(f)), x=lst(r[0]), y=lst(r[1]))


def r_arity(rec, args, cls):
    rec.call("r.arity", -1, lambda: cls(*args))


# --- expansion
def expand_verse(rec, x, f):
    v = V(x)
    rec.call("x.vchap", f, lambda: v.chap_range(**kw(f)), x=lst(x))
    rec.call("x.vbook", f, lambda: v.book_range(**kw(f)), x=lst(x))


def expand_book(rec, b, f):
    B = BOOK[b]
    rec.call("x.bbook", f, lambda: B.range(**kw(f)), b=b)
    for rg in (True, False):
        rec.call("x.bchaps", f, lambda: B.chap_ranges(regroup=rg, **kw(f)), b=b, n=1 if rg else 0)


def expand_chap(rec, b, c, f):
    rec.call("x.bchap", f, lambda: BOOK[b].chap_range(c, **kw(f)), b=b, c=c)


def expand_range(rec, r, f):
    a = R(r)
    rec.call("x.rchap", f, lambda: a.chap_range(**kw(f)), r=lst(r))
    rec.call("x.rbook", f, lambda: a.book_range(**kw(f)), r=lst(r))


def shape(rec, r, f):
    a = R(r)
    rec.call("x.shape", f, lambda: (a.is_single_verse(), a.is_whole_chap(**kw(f)), a.spans_start_chap(**kw(f)),
                                    a.spans_end_chap(**kw(f)), a.is_whole_book(**kw(f)), a.spans_start_book(**kw(f)),
                                    a.spans_end_book(**kw(f))), r=lst(r))


def expand_list(rec, gs, f):
    l = L(gs)
    xs = [lst(r) for g in gs for r in g]
    rec.call("x.lrange", f, lambda: l.range(), xs=xs)
    rec.call("x.lchap", f, lambda: l.chap_range(**kw(f)), xs=xs)
    rec.call("x.lbook", f, lambda: l.book_range(**kw(f)), xs=xs)


def whole(rec, f):
    rec.call("x.whole", f, lambda: BibleRange.whole_bible(**kw(f)))


# --- counting
def counts(rec, r, f, which="vcCbB"):
    a = R(r)
    X = dict(r=lst(r))
    if "v" in which: rec.call("c.verses", f, lambda: a.verse_count(**kw(f)), **X)
    if "c" in which: rec.call("c.chaps", f, lambda: a.chap_count(**kw(f)), n=0, **X)
    if "C" in which: rec.call("c.chaps", f, lambda: a.chap_count(whole=True, **kw(f)), n=1, **X)
    if "b" in which: rec.call("c.books", f, lambda: a.book_count(**kw(f)), n=0, **X)
    if "B" in which: rec.call("c.books", f, lambda: a.book_count(whole=True, **kw(f)), n=1, **X)


def iterate(rec, r, cap=100000):
    a = R(r)
    def go():
        out = []
        for v in a:
            out.append(v)
            if len(out) > cap:
                break
        return out
    rec.call("c.iter", -1, go, r=lst(r))


def iterate_twice(rec, r):
    """Two iterations over the same range at the same time, one of them ahead, and a third one given up half-way."""
    a = R(r)
    for first in (True, False):
        def go():
            given_up = iter(a)
            next(given_up)
            x, y, xs, ys = iter(a), iter(a), [], []
            while True:
                u = next(x, None)
                if u is None:
                    break
                xs.append(u)
                if len(xs) % 2 == 0:
                    ys.append(next(y))
                if len(xs) % 3 == 0:
                    next(given_up, None)
                if len(xs) > 100000:
                    break
            ys.extend(y)
            return xs if first else ys
        rec.call("c.iter", -1, go, r=lst(r))


def list_counts(rec, gs, f):
    l = L(gs)
    xs = [lst(r) for g in gs for r in g]
    rec.call("c.lverses", f, lambda: l.verse_count(**kw(f)), xs=xs, n=0)
    for w in (False, True):
        rec.call("c.lchaps", f, lambda: l.chap_count(whole=w, **kw(f)), xs=xs, n=int(w))
        rec.call("c.lbooks", f, lambda: l.book_count(whole=w, **kw(f)), xs=xs, n=int(w))


# --- splitting
def split(rec, r, bb, bc, n, rg, f):
    a = R(r)
    args = {}
    if bb: args["by_book"] = True
    if bc: args["by_chap"] = True
    if n is not None: args["num_verses"] = n
    if not rg: args["regroup"] = False
    rec.call("split", f, lambda: a.split(**args, **kw(f)), r=lst(r), bb=bool(bb), bc=bool(bc), n=-1 if n is None else n,
             rg=bool(rg))


# --- operands of any type: ("v", verse) ("r", range) ("l", groups)
def build(x):
    return V(x[1]) if x[0] == "v" else R(x[1]) if x[0] == "r" else L(x[1])


def flat(x):
    if x[0] == "v":
        return [lst((x[1], x[1]))]
    if x[0] == "r":
        return [lst(x[1])]
    return [lst(r) for g in x[1] for r in g]


def snap(o):
    """An operand as groups, as it is now."""
    if isinstance(o, BibleVerse):
        return [[[enc_verse(o), enc_verse(o)]]]
    if isinstance(o, BibleRange):
        return [[enc_range(o)]]
    try:
        return enc_list(o)
    except Exception as e:
        return [["broken: %s" % e]]


# --- predicates
def predicate(rec, o, x, y, f, op=False):
    a, b = build(x), build(y)
    X = dict(xs=flat(x), ys=flat(y))
    if o == "disjoint":
        rec.call("p.disjoint", -1, lambda: a.is_disjoint(b), **X)
    elif o == "contains":
        if op:
            rec.call("p.contains", -1, lambda: b in a, **X)
        elif x[0] == "l":
            rec.call("p.contains", f, lambda: a.contains(b, **kw(f)), **X)
        else:
            rec.call("p.contains", -1, lambda: a.contains(b), **X)
    elif o == "surrounds":
        rec.call("p.surrounds", -1, lambda: a.surrounds(b), **X)
    elif o == "adjacent":
        rec.call("p.adjacent", f, lambda: a.is_adjacent(b, **kw(f)), **X)


# --- set operations
METHOD = {"or": "union", "and": "intersection", "sub": "difference", "xor": "sym_difference"}


def apply_op(o, a, b):
    return a | b if o == "or" else a & b if o == "and" else a - b if o == "sub" else a ^ b


def setop(rec, o, x, y, f, op=False):
    a, b = build(x), build(y)
    xb, yb = snap(a), snap(b)
    rec.call("s." + o, f, (lambda: apply_op(o, a, b)) if op else (lambda: getattr(a, METHOD[o])(b, **kw(f))),
             xs=flat(x), ys=flat(y), xb=xb, yb=yb, xa=lambda: snap(a), ya=lambda: snap(b))


def update(rec, o, x, y, f, op=False, alias=False):
    """x is a list; y any operand; alias: the list itself is the other operand."""
    l = build(x)
    other = l if alias else build(y)
    pure = L(x[1])
    yb = snap(other)
    same = [True]

    def go():
        m = l
        if op:
            if o == "or": m |= other
            elif o == "and": m &= other
            elif o == "sub": m -= other
            else: m ^= other
        else:
            r = getattr(m, METHOD[o] + "_update")(other, **kw(f))
            if r is not None and r is not m:
                same[0] = False
        same[0] = same[0] and (m is l)
        return m

    def pure_result():
        k, v, _ = guarded(lambda: getattr(pure, METHOD[o])(pure if alias else build(y), **kw(f)))
        return v if k == "list" else [["not a list"]]
    rec.call("u." + o, f, go, xs=flat(x), ys=flat(x) if alias else flat(y), yb=yb,
             ya=(yb if alias else (lambda: snap(other))), same=lambda: same[0], pure=pure_result)


def merge(rec, x, f):
    l = build(x)
    def go():
        l.merge(**kw(f))
        return l
    after = lambda: snap(l)
    rec.call("u.merge", f, go, xs=flat(x), ys=[], yb=[], ya=[], same=True, pure=after)


# --- grouping
def regroup(rec, gs, f):
    l = L(gs)
    xb = snap(l)
    def go():
        l.regroup(**kw(f))
        return l
    rec.call("g.regroup", f, go, xb=xb)


def sort(rec, gs, rg):
    l = L(gs)
    xb = snap(l)
    def go():
        l.sort() if rg else l.sort(regroup=False)
        return l
    rec.call("g.sort", -1, go, xb=xb, n=int(rg))


# --- verse 0
def zero_verse(rec, x, to1):
    v = V(x)
    rec.call("z.verse", -1, lambda: v.verse_0_to_1() if to1 else v.verse_1_to_0(), x=lst(x), n=int(to1))


def zero_range(rec, r, to1):
    a = R(r)
    rec.call("z.range", -1, lambda: a.verse_0_to_1() if to1 else a.verse_1_to_0(), r=lst(r), n=int(to1))


def zero_list(rec, gs, to1):
    l = L(gs)
    xb = snap(l)
    def go():
        x = l.verse_0_to_1() if to1 else l.verse_1_to_0()
        return l if x is None else x
    rec.call("z.list", -1, go, xb=xb, n=int(to1))


# --- text
def opts(o):
    """o = (abbrev, alt_sep, nospace, preserve_groups, force_start_verses)"""
    return dict(ab=bool(o[0]), alt=bool(o[1]), ns=bool(o[2]), pg=bool(o[3]), fs=bool(o[4]))


_made = itertools.count()


def make_text(kind, obj, o, f):
    n = next(_made) % 11
    if n in (3, 7):     # all options spelt out, some of them by position
        K = {} if kind == "verse" else dict(force_start_verses=bool(o[4]), **kw(f))
        if kind == "list":
            K["preserve_groups"] = bool(o[3])
        first = dict(zip(("abbrev", "alt_sep", "nospace"), map(bool, o)))
        return obj.str(**first, **K) if n == 3 else obj.str(*first.values(), **K)
    K = {}
    if o[0]: K["abbrev"] = True
    if o[1]: K["alt_sep"] = True
    if o[2]: K["nospace"] = True
    if kind != "verse":
        if o[4]: K["force_start_verses"] = True
        K.update(kw(f))
    if kind == "list" and not o[3]:
        K["preserve_groups"] = False
    if not K:
        return str(obj)
    return obj.str(**K)


def text_verse(rec, x, o):
    v = V(x)
    rec.call("t.verse", -1, lambda: make_text("verse", v, o, -1), x=lst(x), **opts(o))


PARTS = {"B": BibleVersePart.BOOK, "C": BibleVersePart.CHAP, "V": BibleVersePart.VERSE}


def text_parts(rec, x, o, parts):
    v = V(x)
    p = BibleVersePart.NONE
    for q in parts:
        p |= PARTS[q]
    rec.call("t.parts", -1, lambda: v.str(bool(o[0]), bool(o[1]), bool(o[2]), p), x=lst(x), ps=list(parts), **opts(o))


def text_range(rec, r, o, f):
    a = R(r)
    rec.call("t.range", f, lambda: make_text("range", a, o, f), r=lst(r), **opts(o))


def text_list(rec, gs, o, f):
    l = L(gs)
    rec.call("t.list", f, lambda: make_text("list", l, o, f), xb=lst(gs), **opts(o))


def text_repr(rec, x):
    """repr() of a reference, x as for build(); f = -1."""
    a = build(x)
    rec.call("t.repr", -1, lambda: repr(a), w=x[0], x=lst(x[1]) if x[0] == "v" else [], r=lst(x[1]) if x[0] == "r" else [],
             xb=lst(x[1]) if x[0] == "l" else [], **opts((0, 0, 0, 1, 0)))


def text_group(rec, gs, i, plain):
    """str() or repr() of a group of a list."""
    l = L(gs)
    rec.call("t.repr", -1, (lambda: str(l.groups[i])) if plain else lambda: repr(l.groups[i]), w="gs" if plain else "g", x=[], r=[],
             xb=lst(gs[i:i + 1]), **opts((0, 0, 0, 1, 0)))


def _roundtrip(rec, op, kind, obj, cls, o, f, **fields):
    seps = rec.seps
    text = [""]
    def go():
        s = make_text(kind, obj, o, f)
        text[0] = s if isinstance(s, str) else ""
        if not isinstance(s, str):
            return s
        return cls(s, **kw(f))
    rec.call(op, f, go, sp=lambda: any(c.isspace() for c in text[0]), hvs=lambda: seps[3] in text[0],
             hva=lambda: seps[4] in text[0], **opts(o), **fields)


def rt_verse(rec, x, o, f):
    _roundtrip(rec, "rt.verse", "verse", V(x), BibleVerse, o, f, x=lst(x))


def rt_range(rec, r, o, f):
    _roundtrip(rec, "rt.range", "range", R(r), BibleRange, o, f, r=lst(r))


def rt_list(rec, gs, o, f):
    _roundtrip(rec, "rt.list", "list", L(gs), BibleRangeList, o, f, xb=lst(gs))


def rt_conv(rec, gs, o, f):
    """Parse the conventional text: the groups come out as regrouping makes them."""
    l = L(gs)
    o = (o[0], o[1], o[2], 0, o[4])
    rec.call("rt.conv", f, lambda: BibleRangeList(make_text("list", l, o, f), **kw(f)), xb=lst(gs), **opts(o))


# --- parsing
def parse(rec, sent, text, span, f, how="parse"):
    cls = {"parse": BibleRangeList, "parse.v": BibleVerse, "parse.r": BibleRange}[how]
    return rec.call(how, f, lambda: cls(text, **kw(f)), s=sent, span=span, t=text, len=len(text))


def total(rec, text, f):
    return rec.call("total", f, lambda: BibleRangeList(text, **kw(f)), len=len(text), t=safe(text))


def safe(text):
    """For the reader of the trace only."""
    return text.encode("ascii", "backslashreplace").decode()


# --- names
def name(rec, text, err=False):
    rec.call("name", -1, lambda: BibleBook.from_str(text, raise_error=True) if err else BibleBook.from_str(text),
             s=[" " if c.isspace() else c for c in text.lower()], n=int(err), t=text)


# --- refused calls
class Boom(Exception):
    """Raised by the caller's own iterator."""


def looks(objs):
    """Everything that can be seen of the given objects, as a string."""
    out = []
    for o in objs:
        if isinstance(o, (BibleVerse, BibleRange, BibleRangeList)):
            out.append(snap(o))
        else:
            out.append(repr(enc(o)))
    return json.dumps(out)


def refused(rec, w, fn, *objs, f=-1):
    rec.call("e.call", f, fn, w=w, xb=looks(objs), xa=lambda: looks(objs))


def unequal(rec, a, b):
    rec.call("e.eq", -1, lambda: (a == b, a != b), xb=looks([a, b]), xa=lambda: looks([a, b]))


def bad_setting(rec, attr, val):
    """A setting that is refused: not a step of the specification, so the state has to stay as it is."""
    rec.call("e.set", -1, lambda: setattr(bible_data(), attr, val), xb="", xa="")
