"""Conformance driver core: calls the real package and records each call as an event of a trace.

The package under test is always imported from $BIBLEREF_SRC (default /repo/src).  Results are projected to
the values the specification talks about (see spec/Ops.tla); nothing here decides whether a result is right.
"""
import json, os, random, re, resource, signal, sys, time

SRC = os.environ.get("BIBLEREF_SRC", "/repo/src")
sys.dont_write_bytecode = True
sys.path.insert(0, SRC)
HERE = os.path.dirname(os.path.abspath(__file__))

import bibleref
from bibleref import BibleBook, BibleVerse, BibleRange, BibleRangeList, BibleFlag, BibleVersePart, bible_data
from bibleref import ref as _ref, util as _util, data as _data

assert os.path.realpath(bibleref.__file__).startswith(os.path.realpath(SRC)), bibleref.__file__

def decoded(text):
    """Characters outside ASCII are written <code> in the specification and in traces."""
    return re.sub("<([0-9a-f]{4})>", lambda m: chr(int(m[1], 16)), text)


def encoded(dumped):
    """The same in JSON text."""
    return re.sub(r"\\\\|\\u([0-9a-f]{4})", lambda m: "<%s>" % m[1] if m[1] and m[1] >= "0080" else m[0], dumped)


CFG = json.loads(decoded(open(os.path.join(HERE, "configs.json")).read()))
IDS = CFG["ids"]
BOOK = [None] + [BibleBook(i) for i in IDS]           # number -> BibleBook
NUM = {b: i for i, b in enumerate(BOOK) if b is not None}
FL = [BibleFlag.NONE, BibleFlag.MULTIBOOK, BibleFlag.VERSE_0, BibleFlag.ALL]
SEPS = ["-", ";", ",", ":", "."]                      # range, major list, minor list, verse, alternate verse
SEP_ATTR = {"rs": "range_sep", "maj": "major_list_sep", "min": "minor_list_sep", "vs": "verse_sep_std",
            "va": "verse_sep_alt"}
SEP_KEYS = ["rs", "maj", "min", "vs", "va"]
EXTRAS3 = {40: ['Mt', 'Mth', 'Matth.', 'Ev. Mt', 'Mat ev', 'M', 'Mtt', 'Mttt', 'Mtttt'], 65: [], 9: ['3Rg', 'III Rg'], 22: ['S o S'], 8: ['R+t', 'R.t', 'R|t'], 1: ['A'], 19: ['Ps'], 62: ['1Jo', '1 Jo'], 63: ['4Kgs'], 64: ['^x$', 'x*', '(x)', '[yz]', '\\d']}
EXTRAS4 = {40: ['Мф', 'Мтф', 'Ев. Мф'], 65: ['Иуд'], 9: ['1 Цр', '1Цар'], 22: ['ПП'], 8: ['Rté'], 1: ['Gn', 'Gnè'], 64: ['3Jn'], 19: ['Ps'], 62: ['1Jn'], 63: ['2Jn']}
EXTRAS2 = {40: ["Mth"], 65: ["Jds"], 9: ["1 Rg"], 22: ["C. C."]}


def extras_of(n, b):
    if n == 5:
        a = {9: 10, 10: 9, 42: 43, 43: 42}.get(b, b)
        title = CFG["names"][0][a - 1][1]
        return CFG["extras"][a - 1] + ["Q" + title.lower()] * (a == b and b % 3 == 1 and title[0] not in "123")
    return CFG["extras"][b - 1] if n == 1 else {2: EXTRAS2, 3: EXTRAS3, 4: EXTRAS4}[n][b]



def multi(f): return f in (1, 3)
def zero(f): return f in (2, 3)
def zz(f): return 2 if zero(f) else 1


class Hang(BaseException):
    """A call used up its CPU time."""


class Enough(BaseException):
    """Stop driving: several calls hung, or the CPU budget of the driver is used up."""


def _alarm(*_):
    raise Hang()


def fl_index(flags):
    for i, f in enumerate(FL):
        if flags == f:
            return i
    return -2


# --- projection of results ---------------------------------------------------------------------------------

def plain_int(x):
    return type(x) is int and -2**31 < x < 2**31


def enc_verse(v):
    if not isinstance(v, BibleVerse) or v.book not in NUM or not plain_int(v.chap_num) or not plain_int(v.verse_num):
        raise Weird(v)
    return [NUM[v.book], v.chap_num, v.verse_num]


def enc_range(r):
    if not isinstance(r, BibleRange):
        raise Weird(r)
    return [enc_verse(r.start), enc_verse(r.end)]


class Weird(Exception):
    pass


def enc_list(l):
    """The groups of a list, after checking that every way of looking at it agrees."""
    n = len(l)
    flat = []
    for r in l:
        flat.append(enc_range(r))
        if len(flat) > n + 3:
            raise Weird("iteration does not end")
    groups = []
    for g in l.groups:
        gg = []
        for r in g:
            gg.append(enc_range(r))
            if len(gg) > n + 3:
                raise Weird("group iteration does not end")
        groups.append(gg)
        if len(groups) > n + 3:
            raise Weird("groups do not end")
    if len(flat) != n or [r for g in groups for r in g] != flat or len(l.groups) != len(groups):
        raise Weird("inconsistent list")
    back = []
    for r in reversed(l):
        back.append(enc_range(r))
        if len(back) > n + 3:
            raise Weird("reversed iteration does not end")
    if back[::-1] != flat:
        raise Weird("inconsistent reversed list")
    return groups


def enc(x):
    try:
        if x is None:
            return "none", 0
        if isinstance(x, bool):
            return "bool", x
        if isinstance(x, int):
            return ("int", x) if plain_int(x) else ("weird", "int")
        if isinstance(x, BibleBook):
            return "book", NUM[x]
        if isinstance(x, BibleVerse):
            return "verse", enc_verse(x)
        if isinstance(x, BibleRange):
            return "range", enc_range(x)
        if isinstance(x, BibleRangeList):
            return "list", enc_list(x)
        if isinstance(x, str):
            return "str", x
        if isinstance(x, tuple) and all(isinstance(y, bool) for y in x):
            return "bools", list(x)
        if isinstance(x, list) and all(isinstance(y, BibleVerse) for y in x):
            return "verses", [enc_verse(y) for y in x]
    except Weird as e:
        return "weird", ("%s" % (e,))[:100]
    except Exception as e:
        return "weird", ("%s: %s" % (type(e).__name__, e))[:100]
    return "weird", repr(x)[:100]


def category(e):
    for cls, cat in ((_ref.BibleRefParsingError, "parse"), (_ref.InvalidReferenceError, "inv"),
                     (_ref.MultibookRangeNotAllowedError, "mb"), (_util.GroupViewError, "view"),
                     (IndexError, "index"), (TypeError, "type"), (ValueError, "value")):
        if isinstance(e, cls):
            return cat
    return "other:" + type(e).__name__


def guarded(fn, limit=10.0):
    """(kind, value, exception) of one call, within a limit on CPU time."""
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        x = fn()
        k, v = enc(x)
        e = None
    except Hang as h:
        k, v, e = "err", "hang", h
    except Exception as ex:
        k, v, e = "err", category(ex), ex
    except BaseException as ex:
        if isinstance(ex, (KeyboardInterrupt, SystemExit, Enough)):
            raise
        k, v, e = "err", "other:" + type(ex).__name__, ex
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return k, v, e


# --- configurations ----------------------------------------------------------------------------------------

class Tables:
    """The tables of one configuration, for generating inputs (the specification has the same ones)."""
    def __init__(self, c):
        self.c = list(c)
        self.order = CFG["orders"][c[0] - 1]
        self.mx = {b: CFG["maxes"][c[1] - 1][b - 1] for b in self.order}
        self.v0 = {b: set(CFG["zeros"][c[2] - 1][b - 1]) for b in self.order}
        self.pos = {b: i for i, b in enumerate(self.order)}
        self._verses = {}

    def minv(self, b, c, z):
        return 0 if z == 2 and c in self.v0[b] else 1

    def verses(self, z):
        if z not in self._verses:
            self._verses[z] = [(b, c, v) for b in self.order for c in range(1, len(self.mx[b]) + 1)
                               for v in range(self.minv(b, c, z), self.mx[b][c - 1] + 1)]
        return self._verses[z]

    def key(self, x):
        return (self.pos[x[0]], x[1], x[2])

    def has(self, x):
        return x[0] in self.pos and 1 <= x[1] <= len(self.mx[x[0]]) and self.minv(x[0], x[1], 2) <= x[2] <= self.mx[x[0]][x[1] - 1]

    def ranges(self, f, multibook=None):
        """All ranges allowed by flags f."""
        vs = self.verses(zz(f))
        m = multi(f) if multibook is None else multibook
        return [(vs[i], vs[j]) for i in range(len(vs)) for j in range(i, len(vs)) if m or vs[i][0] == vs[j][0]]


_tables = {}


def tables(c):
    c = tuple(c)[:3]
    if c not in _tables:
        _tables[c] = Tables(c)
    return _tables[c]


DEFAULT = (1, 1, 1, 1)
MINIS = [(2, 2, 2, 1), (3, 3, 3, 1), (4, 4, 4, 1), (9, 7, 8, 1)]    # the last has one book only
ALT = (5, 1, 1, 1)
LONG = (8, 6, 7, 1)      # longer chapters and books than the default ones, in another order
FULLS = [DEFAULT, ALT, LONG]


def named(c, g):
    """c, for some of the flags with other names: those that are not written in ASCII, or those that are close to the first."""
    return c[:3] + (5,) if c in (DEFAULT, LONG) and g == (1 if c == DEFAULT else 2) else c[:3] + (4,) if c in MINIS[:3] and (MINIS.index(c) + g) % 2 else c


_turn = [0]
PART_ATTR = {"o": "book_order", "m": "max_verses", "z": "verse_0s", "n": "name_data"}
PART_NUM = {"o": len(CFG["orders"]), "m": len(CFG["maxes"]), "z": len(CFG["zeros"]), "n": len(CFG["names"])}


def part_value(w, n):
    if n == 1:
        return getattr(_data, "default_" + PART_ATTR[w])
    if w == "o":
        return [BOOK[b] for b in CFG["orders"][n - 1]]
    if w == "m":
        return {BOOK[b]: list(CFG["maxes"][n - 1][b - 1]) for b in range(1, 67) if CFG["maxes"][n - 1][b - 1]}
    if w == "z":
        return {BOOK[b]: set(CFG["zeros"][n - 1][b - 1]) for b in range(1, 67) if CFG["zeros"][n - 1][b - 1]}
    return {BOOK[b]: list(CFG["names"][n - 1][b - 1]) + [list(extras_of(n, b))] for b in range(1, 67) if CFG["names"][n - 1][b - 1][1]}


def install_part(w, n):
    """New data, or the data that is installed now, changed to what it shall be, and set again."""
    new = part_value(w, n)
    now = getattr(bible_data(), PART_ATTR[w])
    _turn[0] += 1
    if _turn[0] % 3 == 0 and now is not getattr(_data, "default_" + PART_ATTR[w]) and type(now) is type(new):
        if w == "o":
            now[:] = new
        else:
            for b in list(now):
                if b not in new:
                    del now[b]
            for b in new:
                x = new[b]
                if b in now and w == "m" and now[b] is not getattr(_data, "default_max_verses").get(b):
                    now[b][:] = x
                else:
                    now[b] = type(x)(x)
        new = now
    elif _turn[0] % 3 == 1:
        new = list(new) if w == "o" else {b: type(x)(x) for b, x in new.items()}
    setattr(bible_data(), PART_ATTR[w], new)


def installed_part(w):
    """Which of the tables is installed now (0: none of them)."""
    x = getattr(bible_data(), PART_ATTR[w])
    for n in range(1, PART_NUM[w] + 1):
        try:
            if x == part_value(w, n) or (w == "o" and list(x) == part_value(w, n)):
                return n
        except Exception:
            pass
    return 0


class Recorder:
    """Writes a trace: the package's global state is what the specification's state is."""
    def __init__(self, path, seglen=1000):
        self.out = open(path, "w")
        self.i = 0
        self.cfg = list(DEFAULT)
        self.seps = list(SEPS)
        self.flags = 0
        self.seglen = seglen
        self.since = 0
        self.hangs = 0
        self.ops = {}
        self.deadline = float("inf")
        self.early = random.Random(11)
        self.anynames = None        # random numbers, for properties that don't depend on the names
        signal.signal(signal.SIGVTALRM, _alarm)

    def _emit(self, e):
        self.i += 1
        e["i"] = self.i
        self.out.write(encoded(json.dumps(e, separators=(",", ":"))) + "\n")
        self.since += 1

    def _reset(self):
        self._emit({"o": "@reset", "c": self.cfg, "seps": self.seps, "n": self.flags})
        self.since = 0

    def reset(self, c=None, flags=None, seps=None):
        """A new independent segment in configuration c (installed through the public setters)."""
        if seps is not None:
            for w, s in zip(SEP_KEYS, seps):
                setattr(bible_data(), SEP_ATTR[w], s)
            self.seps = list(seps)
        if c is not None:
            if self.anynames is not None and c[3] == 1 and self.anynames.random() < .6:
                c = tuple(c[:3]) + (self.anynames.randint(1, len(CFG["names"])),)
            for j, w in enumerate("omzn"):
                if self.cfg[j] != c[j]:
                    install_part(w, c[j])
                    self.cfg[j] = c[j]
        if flags is not None:
            bibleref.flags = FL[flags]
            self.flags = flags
        self._reset()

    @property
    def T(self):
        return tables(self.cfg)

    # -- steps of the user that change the global state
    def set_flags(self, n):
        if n != self.flags:
            bibleref.flags = FL[n]
            self.flags = n
            self._emit({"o": "@flags", "n": n})

    def set_part(self, w, n):
        install_part(w, n)
        self.cfg["omzn".index(w)] = n
        self._emit({"o": "@set", "w": w, "n": n})

    def set_sep(self, w, s):
        setattr(bible_data(), SEP_ATTR[w], s)
        self.seps[SEP_KEYS.index(w)] = s
        self._emit({"o": "@sep", "w": w, "s": s})

    def see(self):
        d = bible_data()
        self._emit({"o": "@see", "n": fl_index(bibleref.flags), "seps": [getattr(d, SEP_ATTR[w]) for w in SEP_KEYS],
                    "parts": [installed_part(w) for w in "omzn"]})

    # -- calls
    def call(self, o, f, fn, limit=10.0, **fields):
        """Record one call.  f: the flags argument (-1 = None).  A callable field is evaluated after the call."""
        if self.since >= self.seglen:
            self._reset()
        box = []
        if o in PURE and self.early.random() < .06:
            self._elsewhere(fn)
        if o in SPOIL:
            made = fn
            fn = lambda: box.append(made()) or box[0]
        k, v, ex = guarded(fn, limit)
        if k == "list" and box:
            spoil(box[0])
        e = {"o": o, "f": f, "k": k, "v": v}
        for name, val in fields.items():
            e[name] = val() if callable(val) else val
        if isinstance(ex, _ref.BibleRefParsingError):
            e["p"] = [p if plain_int(p) else -9 for p in (ex.start_pos, ex.end_pos)]
        elif o in ("parse", "total", "parse.v", "parse.r"):
            e["p"] = [0, 0]
        self.ops[o] = self.ops.get(o, 0) + 1
        self._emit(e)
        if time.process_time() > self.deadline:
            raise Enough()
        if v == "hang" and k == "err":
            self.hangs += 1
            if self.hangs >= 2:
                raise Enough()
        return k, v

    def _elsewhere(self, fn):
        """Make a call that has no effects in another state first (other flags, another item in a list that it may be
        about), go back to where we were and forget about it: nothing of it may show in what is recorded."""
        l = _used[-1] if _used else []
        if self.early.random() < .5 or not len(l):
            bibleref.flags = FL[(self.flags + self.early.randrange(1, 4)) % 4]
            guarded(fn, 2.0)
            bibleref.flags = FL[self.flags]
            return
        i, x = self.early.randrange(len(l)), []
        if len(l) > 2 and self.early.random() < .7:
            i = self.early.randrange(1, len(l) - 1)

        def put(y):
            x.append(l[i])
            l[i] = y

        def found():
            for q in reversed(_used[-4:]):
                for y in q:
                    if y != l[i] and all(self.T.has(enc_verse(v)) for v in (y.start, y.end)):
                        return y
            return l[0]
        box = []
        if guarded(lambda: box.append(found()))[0] == "err":
            return
        other = box[0]
        if guarded(lambda: put(other))[0] != "err":
            guarded(fn, 2.0)
        if x:
            guarded(lambda: put(x[0]))

    def raw(self, o, f, k, v, **fields):
        """Record a result that was obtained elsewhere."""
        if self.since >= self.seglen:
            self._reset()
        e = {"o": o, "f": f, "k": k, "v": v}
        e.update(fields)
        self.ops[o] = self.ops.get(o, 0) + 1
        self._emit(e)

    def close(self):
        self.out.close()


# Calls that change nothing and can be made twice.
PURE = {"v.add", "v.sub", "v.diff", "v.minv", "v.first", "v.isfirstc", "v.isfirstb", "b.nverse", "b.first", "b.minv",
        "x.vchap", "x.vbook", "x.bbook", "x.bchaps", "x.bchap", "x.rchap", "x.rbook", "x.shape", "x.lrange", "x.lchap", "x.lbook", "x.whole",
        "c.verses", "c.chaps", "c.books", "c.lverses", "c.lchaps", "c.lbooks", "split", "p.disjoint", "p.contains", "p.surrounds", "p.adjacent",
        "s.or", "s.and", "s.sub", "s.xor", "t.verse", "t.parts", "t.range", "t.list", "t.repr", "r.parts", "r.kw", "r.copy", "v.new", "v.copy", "parse"}

# A list that a call returns belongs to the caller: whatever happens to it then must not show anywhere else.
SPOIL = {"s.or", "s.and", "s.sub", "s.xor", "u.or", "u.and", "u.sub", "u.xor", "split", "x.bchaps", "parse"}


def spoil(l):
    _turn[0] += 1
    try:
        if not isinstance(l, _ref.BibleRangeList) or _turn[0] % 3 == 0:
            return
        if _turn[0] % 3 == 1:
            l.clear()
        else:
            l.reverse()
            l.append(_ref.BibleRange(_ref.BibleBook.Jude, 1, 1), new_group=True)
            l.pop(0)
    except Exception:
        pass                                # (the list is wrong then, and judged by other calls)


# --- building inputs ---------------------------------------------------------------------------------------

def F(f):
    return None if f == -1 else FL[f]


_kept = {}


def kept(key, make):
    """Every other time an equal object that was made earlier, perhaps under other flags and settings: references are
    values, so this makes no difference."""
    _turn[0] += 1
    if _turn[0] % 2 and key in _kept:
        return _kept[key]
    x = make()
    if len(_kept) < 100000:
        _kept.setdefault(key, x)
    return x


def V(x):
    return kept(tuple(x), lambda: BibleVerse(BOOK[x[0]], x[1], x[2], flags=BibleFlag.ALL))


def R(r):
    return kept((tuple(r[0]), tuple(r[1])), lambda: BibleRange(start=V(r[0]), end=V(r[1]), flags=BibleFlag.ALL))


_used = []          # lists that the package has worked with before, the oldest first
_route = random.Random(7)


def remade(l, groups):
    """l, changed by one of many ways until it has these groups; None if that doesn't work."""
    items = [x for g in groups for x in g]
    way = _route.randrange(5)
    try:
        if way == 0:
            l.clear()
            for g in groups:
                l.append_group(g)
        elif way == 1 and items and len(l):
            while len(l) > len(items):
                l.pop(_route.randrange(len(l)))
            while len(l) < len(items):
                l.insert(_route.randrange(len(l) + 1), items[0])
            for i, x in enumerate(items):
                l[i] = x
        elif way == 2 and items:
            l.extend(items)
            while len(l) > len(items):
                del l[0]
        elif way == 3 and items:
            l.clear()
            l.extend(reversed(items))
            l.reverse()
        else:
            l.clear()
            l += items
        if way:
            l.clear_groups()
            i = 0
            for g in groups:
                if i:
                    l.insert_group_at(i)
                i += len(g)
        return l if l.to_nested_lists() == groups and len(l) == len(items) else None
    except Exception:
        return None


def L(groups):
    """A list with these groups: a new one, or one that was used for something else before."""
    groups = [[R(r) for r in g] for g in groups]
    l = None
    if len(_used) > 12:
        l = _used.pop(0)
        again = lambda: _route.random() < .7 and len(l) <= 40 and remade(l, groups) is not None
        if guarded(again)[:2] != ("bool", True):
            l = None
    if l is None:
        l = BibleRangeList(groups, flags=BibleFlag.ALL)
    _used.append(l)
    return l


def lst(x):
    """Tuples to lists, for JSON."""
    return [lst(y) for y in x] if isinstance(x, (tuple, list)) else x


# Properties whose inputs and results are no texts; whatever names the books have, or none, they hold.
ANY_NAMES = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C21", "C22"}


class Ctx:
    def __init__(self, prop, shard, nshards, seed, tier, path):
        self.prop, self.shard, self.nshards, self.seed, self.tier = prop, shard, nshards, seed, tier
        self.rec = Recorder(path)
        self.rng = random.Random("%s/%s/%s" % (seed, prop, shard))
        self.thorough = tier == "thorough"
        self._n = 0
        if prop in ANY_NAMES:
            self.rec.anynames = random.Random("names/%s/%s/%s" % (seed, prop, shard))

    def mine(self, n=None):
        """Deal out work: true for every nshards-th question."""
        if n is None:
            n = self._n
            self._n += 1
        return n % self.nshards == self.shard

    def deal(self, it):
        return [x for n, x in enumerate(it) if n % self.nshards == self.shard]

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def arg(self, f):
        """A flags argument that has the effect f (None only if the global flags are f)."""
        if f == self.rec.flags and self.rng.random() < 0.5:
            return -1
        return f

    # random inputs, with a liking for boundaries
    def verse(self, z, book=None):
        T, rng = self.rec.T, self.rng
        b = book or (rng.choice(T.order) if rng.random() < 0.8 else
                     rng.choice([T.order[0], T.order[-1], 19 if 19 in T.pos else T.order[0]]))
        if book is None and 37 in T.pos and len(T.mx[37]) > 200 and rng.random() < .08:
            b = 37           # the longest book
        n = len(T.mx[b])
        c = rng.choice([1, n, rng.randint(1, n), rng.randint(1, n)])
        lo, hi = T.minv(b, c, z), T.mx[b][c - 1]
        v = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), min(hi, lo + 1), max(lo, hi - 1)])
        return (b, c, v)

    def range(self, z, multibook, wide=False):
        T, rng = self.rec.T, self.rng
        x = self.verse(z)
        p = rng.random()
        if multibook and p < 0.4:
            if wide or rng.random() < 0.3:
                y = self.verse(z)
            else:
                y = self.verse(z, T.order[min(len(T.order) - 1, T.pos[x[0]] + rng.choice([0, 1, 1, 2]))])
        elif p < 0.55:
            y = x
        elif p < 0.65:
            x = (x[0], x[1], T.minv(x[0], x[1], z))
            y = (x[0], x[1], T.mx[x[0]][x[1] - 1])
        elif p < 0.70:
            x = (x[0], 1, T.minv(x[0], 1, z))
            y = (x[0], len(T.mx[x[0]]), T.mx[x[0]][-1])
        else:
            y = self.verse(z, x[0])
        return (x, y) if T.key(x) <= T.key(y) else (y, x)

    def near(self, z, r, multibook):
        """A range that touches r or shares an end with it."""
        T, rng = self.rec.T, self.rng
        vs = T.verses(z)
        idx = T.__dict__.setdefault("_idx%d" % z, {v: i for i, v in enumerate(vs)})
        a = idx[rng.choice(r)] + rng.choice([-2, -1, 0, 0, 1, 2])
        b = a + rng.choice([0, 0, 1, 2, 5, 30])
        a, b = max(0, min(a, len(vs) - 1)), max(0, min(b, len(vs) - 1))
        x, y = vs[a], vs[b]
        if x[0] != y[0] and not multibook:
            y = x
        return (x, y)

    def pieces(self, z, multibook, pool=None):
        """A list that a range was cut into (often at its chapter and book boundaries), in any order, and that range."""
        T, rng = self.rec.T, self.rng
        if rng.random() < .4:
            z, pool = 1, None
        r = rng.choice(pool) if pool is not None else self.range(z, multibook)
        vs = T.verses(z)
        idx = T.__dict__.setdefault("_idx%d" % z, {v: i for i, v in enumerate(vs)})
        a, b = idx[r[0]], idx[r[1]]
        ends = [i for i in range(a, b) if vs[i][:2] != vs[i + 1][:2]] if b - a < 400 else []
        cuts = sorted({rng.choice(ends) if ends and rng.random() < .7 else rng.randrange(a, b) for _ in range(rng.randint(1, 3))}) if b > a else []
        out = [(vs[i], vs[j]) for i, j in zip([a] + [c + 1 for c in cuts], cuts + [b])]
        for _ in range(rng.choice([0, 0, 1, 2])):
            out.append(rng.choice(pool) if pool is not None else self.range(z, multibook))
        rng.shuffle(out)
        if len(out) > 2 and rng.random() < .2:
            out.pop()
        return self.groups(out), r

    def some_list(self, z, multibook, n, pool=None):
        rng = self.rng
        if n >= 3 and rng.random() < .04:
            n = rng.randint(7, 36)          # (ways of doing it may depend on the length)
        out = []
        for _ in range(n):
            if out and rng.random() < 0.45:
                out.append(self.near(z, rng.choice(out), multibook))
            elif pool is not None:
                out.append(rng.choice(pool))
            else:
                out.append(self.range(z, multibook))
        if rng.random() < 0.5:
            out.sort(key=lambda r: (self.rec.T.key(r[0]), self.rec.T.key(r[1])))
        return self.groups(out)

    def long_list(self, z, multibook, n):
        """n ranges: all in one chapter or book, any at all, one after another through the Bible, or the same few again and again."""
        T, rng = self.rec.T, self.rng
        vs = T.verses(z)
        idx = T.__dict__.setdefault("_idx%d" % z, {v: i for i, v in enumerate(vs)})
        how = rng.randint(0, 5)
        x = rng.choice(vs)
        if how < 2:
            own = [v for v in vs if v[:how + 1] == x[:how + 1]] if how else [v for v in vs if v[:2] == x[:2]]
            out = []
            for _ in range(n):
                a, b = sorted([rng.choice(own), rng.choice(own)], key=T.key)
                out.append((a, a if rng.random() < .5 else b))
        elif how == 2:
            out = [self.range(z, multibook) for _ in range(n)]
        elif how == 3:
            step, i, out = rng.choice([1, 2, 3, 7]), idx[x], []
            for _ in range(n):
                y, w = vs[i % len(vs)], vs[min(i % len(vs) + rng.choice([0, 0, 0, 1]), len(vs) - 1)]
                out.append((y, w if multibook or w[0] == y[0] else y))
                i += step
        else:
            few = [self.range(z, multibook) for _ in range(rng.choice([1, 2, 3]))]
            out = [rng.choice(few) for _ in range(n)] if how == 4 else few * (n // len(few)) + [self.range(z, multibook)]
        k = rng.randint(0, 3)
        return [out] if k == 0 else [[r] for r in out] if k == 1 else self.groups(out)

    def long_lists(self, sizes, top, each):
        """each(list, flags) for long lists, in small Bibles and in full ones up to top ranges."""
        for n in self.deal(sizes):
            for c in [self.rng.choice(MINIS[:3])] + ([self.rng.choice(FULLS)] if n <= top else []):
                self.rec.reset(c, self.rng.randint(0, 3))
                f = self.arg(self.rng.randint(0, 3))
                e = self.rec.flags if f == -1 else f
                each(self.long_list(zz(e), multi(e), n), f)

    def groups(self, rs):
        gs = []
        for r in rs:
            if gs and self.rng.random() < 0.5:
                gs[-1].append(r)
            else:
                gs.append([r])
        return gs


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
