"""One driver per property: generates inputs, calls the package, records the trace.

Miniature Bibles (configurations 2-4) are enumerated; the default Bible and another book order are enumerated where
that is feasible and sampled (seeded, biased to boundaries) elsewhere."""
import copy
import itertools
import pickle
from core import *
from ops import *
import ops

ALLF = (0, 1, 2, 3)
ARGS = (-1, 0, 1, 2, 3)
SIZES = [17, 33, 65, 101, 129, 257, 400, 600, 1001]
OPTS = list(itertools.product((0, 1), repeat=5))
ALTREL = {2: [0, 0, 0, 1, 0]}


def name_of(rec, b):
    """A name of a book, or the book itself where it has none."""
    rng = rec.early
    ab, title, mn = CFG["names"][rec.cfg[3] - 1][b - 1]
    if not title:
        return BOOK[b]
    if rec.cfg[3] not in (1, 5):        # whose abbreviations needn't be accepted
        ab = title
    return rng.choice([ab, title, title.upper() if title.isascii() else title, ab.lower() if ab.isascii() else ab, " " + title + " "])


def eff(rec, f):
    return rec.flags if f == -1 else f


# ---------------------------------------------------------------------------------------------------------------
def C01(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in FULLS + MINIS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            big = c in FULLS
            args = ARGS if (not big or ctx.thorough) else [-1, rng.choice(ALLF)]
            for f in args:
                for b in ctx.deal(T.order):
                    book_facts(rec, b, f)
                    n = len(T.mx[b])
                    for ch in [-2] + list(range(0, n + 3)):
                        if not big or ctx.thorough or (ch + b + g) % 2 == 0 or ch in (0, 1, n, n + 1):
                            chap_facts(rec, b, ch, f)
            # verse construction: every verse number around and inside every chapter
            for b in ctx.deal(T.order):
                for ch in range(0, len(T.mx[b]) + 2):
                    hi = T.mx[b][ch - 1] if 1 <= ch <= len(T.mx[b]) else 3
                    nums = range(-1, hi + 3) if (not big or ctx.thorough or (b + ch) % 4 == g) \
                        else [-1, 0, 1, hi, hi + 1]
                    for v in nums:
                        for f in (args if not big else [ctx.arg(rng.choice(ALLF))]):
                            verse_new(rec, (b, ch, v), f, name_of(rec, b) if rng.random() < 0.1 else None)
            if not big:
                for b in ctx.deal([x for x in range(1, 67) if x not in T.pos]):   # books that aren't there
                    book_place(rec, b, -1)
                    verse_new(rec, (b, 1, 1), -1)
    # methods of existing verses
    for c in MINIS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            for f in ARGS:
                for x in ctx.deal(T.verses(zz(eff(rec, f)))):
                    verse_facts(rec, x, f)
                    verse_facts(rec, x, f, c=rng.randint(0, len(T.mx[x[0]]) + 1), b=rng.choice(T.order))
                    verse_copy(rec, x, f)
    for c in FULLS:
        for g in ALLF:
            rec.reset(c, g)
            for _ in range(ctx.scale(30, 400)):
                f = ctx.arg(rng.choice(ALLF))
                x = ctx.verse(zz(eff(rec, f)))
                verse_facts(rec, x, f, c=rng.choice([-1, rng.randint(0, len(rec.T.mx[x[0]]) + 1)]),
                            b=rng.choice([-1, rng.choice(rec.T.order)]))


def C02(ctx):
    rec, rng = ctx.rec, ctx.rng

    def copied(a):     # by the copy and pickle modules
        return rng.choice([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x, rng.randint(2, 5)))])(a)

    def other(r):      # an equal range made in another way
        f = BibleFlag.ALL
        a = R(r)
        return rng.choice([lambda: BibleRange(a), lambda: BibleRange(a.start.book, a.start.chap_num, a.start.verse_num,
                           a.end.book, a.end.chap_num, a.end.verse_num, flags=f),
                           lambda: BibleRange(start=a.end, end=a.start, flags=f), lambda: copied(a)])()

    def otherv(x):
        a = V(x)
        return rng.choice([lambda: BibleVerse(a), lambda: BibleVerse(name_of(rec, x[0]), x[1], x[2], flags=BibleFlag.ALL),
                           lambda: R((x, x)).end, lambda: copied(a)])()
    for c in FULLS + MINIS:
        rec.reset(c, 0)
        T = rec.T
        for x in ctx.deal(T.order):
            for y in T.order:
                cmp(rec, "book", x, y, BOOK[x], BOOK[y])
    for c in MINIS:
        for g in (3, 0):
            rec.reset(c, g)
            vs = rec.T.verses(2)
            for x in ctx.deal(vs):
                immutable(rec, V(x), x)
                for y in vs:
                    cmp(rec, "verse", x, y, V(x), otherv(y))
            rs = rec.T.ranges(3)
            for r in ctx.deal(rs):
                immutable(rec, R(r), r)
                for s in rs:
                    if ctx.thorough or r[0] == s[0] or r[1] == s[1] or rng.random() < 0.12:
                        cmp(rec, "range", r, s, R(r), other(s))
    for c in FULLS:
        rec.reset(c, 3)
        for _ in range(ctx.scale(600, 8000)):
            x = ctx.verse(2)
            y = rng.choice([ctx.verse(2), ctx.verse(2, x[0]), ctx.near(2, (x, x), True)[0], x])
            cmp(rec, "verse", x, y, V(x), otherv(y))
            r = ctx.range(2, True)
            s = rng.choice([ctx.range(2, True), ctx.near(2, r, True), r, (r[0], r[0]), (r[1], r[1])])
            cmp(rec, "range", r, s, R(r), other(s))
    # list equality
    for c in MINIS + [DEFAULT, LONG]:
        rec.reset(c, 3)
        pool = rec.T.ranges(3) if c in MINIS else None
        for _ in range(ctx.scale(250, 4000)):
            x = ctx.some_list(2, True, rng.choice([0, 1, 2, 3, 4, 6]), pool)
            fl = [r for g in x for r in g]
            y = rng.choice([lambda: x, lambda: ctx.groups(fl), lambda: ctx.groups(fl[:-1]),
                            lambda: ctx.groups(fl + fl[-1:]), lambda: [list(reversed(g)) for g in reversed(x)],
                            lambda: ctx.groups(fl[:-1] + [ctx.range(2, True)] if fl else fl)])()
            if fl and rng.random() < .4:      # one difference, anywhere
                if rng.random() < .5:
                    x = ctx.some_list(2, True, rng.choice([5, 8, 9, 12, 17, 20, 33, 40]), pool)
                y = [list(g) for g in x]
                i = rng.choice([0, len(y) - 1, rng.randint(0, len(y) - 1)])
                j = rng.choice([0, len(y[i]) - 1, rng.randint(0, len(y[i]) - 1)])
                w = rng.randint(0, 4)
                if w < 2:
                    y[i][j] = ctx.near(2, y[i][j], True)
                elif w == 2:
                    y[i][j:j + 1] = rng.choice([[], [y[i][j]] * 2])
                elif w == 3 and i + 1 < len(y):
                    y[i].append(y[i + 1].pop(0))
                elif j:
                    y[i:i + 1] = [y[i][:j], y[i][j:]]
                y = [g for g in y if g]
            for how in (0, 1, 2, 3):
                list_eq(rec, x, y, how)
    def again(gs, f):
        if gs:
            y = [list(g) for g in gs]
            if rng.random() < .7:
                i = rng.choice([0, len(y) - 1, rng.randint(0, len(y) - 1)])
                j = rng.choice([0, len(y[i]) - 1, rng.randint(0, len(y[i]) - 1)])
                y[i][j] = ctx.near(2, y[i][j], True)
            for how in (0, 1, 2, 3):
                list_eq(rec, gs, y, how)
    rec.reset(DEFAULT, 3)
    ctx.long_lists(SIZES, 300, again)


def C03(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in MINIS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            total = len(T.verses(2))
            for f in ARGS:
                e = eff(rec, f)
                # a verse 0 is honoured whatever the flags say
                for x in ctx.deal(T.verses(2)):
                    for n in range(0, total + 2):
                        if f != -1 and not ctx.thorough and (n + x[2] + g) % 2:
                            continue
                        add(rec, x, n, f, op=(f == -1 and n % 2))
                        sub(rec, x, n, f, op=(f == -1 and n % 2))
                    for y in T.verses(2):
                        if f == -1 or ctx.thorough or rng.random() < 0.5:
                            diff(rec, x, y, f, op=(f == -1 and rng.random() < 0.5))
    for c in FULLS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            if c == DEFAULT:     # from either side of every chapter and book boundary
                for b in ctx.deal(T.order):
                    for ch in range(1, len(T.mx[b]) + 1):
                        f = ctx.arg(rng.choice(ALLF))
                        z = zz(eff(rec, f))
                        add(rec, (b, ch, T.mx[b][ch - 1]), 1, f)
                        sub(rec, (b, ch, T.minv(b, ch, z)), 1, f)
            for _ in range(ctx.scale(250, 4000)):
                f = ctx.arg(rng.choice(ALLF))
                x = ctx.verse(zz(eff(rec, f)))
                n = rng.choice([0, 1, 2, 7, 30, 150, 1000, 5000, 31102, 31218, 40000, rng.randint(0, 40000)])
                add(rec, x, n, f, op=(f == -1 and rng.random() < .5))
                sub(rec, x, n, f, op=(f == -1 and rng.random() < .5))
                y = rng.choice([ctx.verse(zz(eff(rec, f))), ctx.verse(zz(eff(rec, f)), x[0]), ctx.near(zz(eff(rec, f)), (x, x), True)[1]])
                diff(rec, x, y, f, op=(f == -1 and rng.random() < .5))


def C04(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in MINIS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            pos = [(b, ch, v) for b in T.order for ch in [-1] + list(range(0, len(T.mx[b]) + 2))
                   for v in [-1] + list(range(0, (T.mx[b][ch - 1] if 1 <= ch <= len(T.mx[b]) else 1) + 2))]
            ends = pos + [(-1, ch, v) for ch in (-1, 0, 1, 2, 3, 4) for v in (-1, 0, 1, 2, 3, 4)]
            for n, s in enumerate(ctx.deal(pos)):
                for e in ends:
                    if ctx.thorough or rng.random() < 0.3:
                        r_parts(rec, s + e, ctx.arg(rng.choice(ALLF)), rng.random() < .5,
                                (lambda b: name_of(rec, b)) if rng.random() < .05 else None,
                                rng.choice((0, 0, 0, 0, 0, 0, 63, rng.randint(0, 63))))
            for f in ARGS:
                vs = T.verses(zz(eff(rec, f)))
                for x in ctx.deal(vs):
                    for y in vs:
                        if f == -1 or ctx.thorough or rng.random() < .4:
                            r_kw(rec, x, y, f)
            for r in ctx.deal(T.ranges(3)):
                r_copy(rec, r, ctx.arg(rng.choice(ALLF)))
    b = BOOK[40]
    rec.reset(DEFAULT, 0)
    if ctx.shard == 0:
        for args in ((b, 1, 1, b, 1, 2, 3), (5,), (None,), (1.5,)):
            r_arity(rec, args, BibleRange)
        for args in ((), (b,), (b, 1), (b, 1, 1, 1), (5,), (None,), (b, "1", 1), (b, 1, "1"), (b, 1.0, 1), (b, 1, None), (5, 1, 1)):
            r_arity(rec, args, BibleVerse)
    for c in FULLS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            for _ in range(ctx.scale(400, 8000)):
                f = ctx.arg(rng.choice(ALLF))
                x = ctx.verse(2)
                y = rng.choice([ctx.verse(2, x[0]), ctx.verse(2), (-1, rng.randint(1, 5), rng.randint(0, 9)), ctx.near(2, (x, x), True)[1]])
                a = list(x) + list(y)
                for i in range(6):
                    if rng.random() < .2 and i != 0:
                        a[i] = -1
                    elif rng.random() < .05 and i in (1, 2, 4, 5):
                        a[i] = rng.choice([0, 1, 151, 200])
                r_parts(rec, a, f, rng.random() < .5, None, rng.choice((0, 0, 0, 0, 63, rng.randint(0, 63))))


def C05(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in MINIS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            for r in ctx.deal(T.ranges(3)):       # existing multi-book ranges and verse 0s are honoured
                for f in ARGS:
                    if f == -1 or ctx.thorough or rng.random() < .4:
                        # (whether a chapter is whole is left open for a verse 0 that the flags don't allow)
                        mixed = not zero(eff(rec, f)) and (r[0][2] == 0 or r[1][2] == 0)
                        counts(rec, r, f, "vcb" if mixed else "vcCbB")
                iterate(rec, r)
                if rng.random() < .2:
                    iterate_twice(rec, r)
            for _ in range(ctx.scale(60, 1000)):
                f = ctx.arg(rng.choice(ALLF))
                gs = ctx.some_list(zz(eff(rec, f)), True, rng.randint(0, 4), T.ranges(f if f >= 0 else g, True))
                list_counts(rec, gs, f)
    for c in FULLS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            for b in ctx.deal(T.order):           # every book; every chapter, in both numberings
                f = ctx.arg(rng.choice(ALLF))
                z = zz(eff(rec, f))
                counts(rec, ((b, 1, T.minv(b, 1, z)), (b, len(T.mx[b]), T.mx[b][-1])), f)
                n = len(T.mx[b])
                for _ in range(2):          # from near the beginning of the book to near its end
                    f = ctx.arg(rng.choice(ALLF))
                    z = zz(eff(rec, f))
                    c1, c2 = rng.randint(1, min(3, n)), rng.randint(max(1, n - 3), n)
                    r = sorted([(b, c1, rng.randint(T.minv(b, c1, z), T.mx[b][c1 - 1])), (b, c2, rng.randint(T.minv(b, c2, z), T.mx[b][c2 - 1]))])
                    counts(rec, tuple(r), f)
                    if rng.random() < .1:
                        iterate(rec, tuple(r))
                for ch in range(1, n + 1):
                    f = ctx.arg(rng.choice(ALLF))
                    counts(rec, ((b, ch, T.minv(b, ch, zz(eff(rec, f)))), (b, ch, T.mx[b][ch - 1])), f, rng.choice(["v", "C"]))
            for _ in range(ctx.scale(60, 800)):
                f = ctx.arg(rng.choice(ALLF))
                z = zz(eff(rec, f))
                r = ctx.range(z, True, wide=rng.random() < .15)
                counts(rec, r, f)
                r = ctx.range(zz(g), True)
                if T.pos[r[1][0]] - T.pos[r[0][0]] <= 2:
                    iterate(rec, r)
            if ctx.shard == g and c == DEFAULT:
                z = zz(g)
                r = ((1, 1, 1), (66, 22, 21))
                counts(rec, r, -1)
                iterate(rec, r)
            for _ in range(ctx.scale(8, 200)):
                f = ctx.arg(rng.choice(ALLF))
                list_counts(rec, ctx.some_list(zz(eff(rec, f)), True, rng.randint(1, 5)), f)
    ctx.long_lists(SIZES, 150, lambda gs, f: list_counts(rec, gs, f))


def C06(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in MINIS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            for r in ctx.deal(T.ranges(3)):
                for bb, bc in itertools.product((0, 1), repeat=2):
                    for n in (None, 1, 2, 3, 4, 5, 7, 12, 30, 0, -2):
                        if n is not None and n < 1 and rng.random() < .9:
                            continue
                        if ctx.thorough or rng.random() < .35:
                            split(rec, r, bb, bc, n, rng.random() < .6, ctx.arg(rng.choice(ALLF)))
    for c in FULLS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            for b in ctx.deal(T.order):
                f = ctx.arg(rng.choice(ALLF))
                z = zz(eff(rec, f))
                r = ((b, 1, T.minv(b, 1, z)), (b, len(T.mx[b]), T.mx[b][-1]))
                split(rec, r, rng.random() < .5, True, rng.choice([None, None, 10, 25]), rng.random() < .5, f)
            for _ in range(ctx.scale(60, 1200)):
                f = ctx.arg(rng.choice(ALLF))
                r = ctx.range(zz(eff(rec, f)), True, wide=rng.random() < .1)
                n = rng.choice([None, None, 1, 2, 5, 17, 60, 400, 2000])
                if n in (1, 2) and T.pos[r[1][0]] - T.pos[r[0][0]] > 0:
                    n = 40
                split(rec, r, rng.random() < .5, rng.random() < .5, n, rng.random() < .6, f)


def operand(ctx, z, mb, kinds, pool):
    k = ctx.rng.choice(kinds)
    if k == "v":
        r = ctx.rng.choice(pool) if pool else ctx.range(z, mb)
        return ("v", ctx.rng.choice(r))
    if k == "r":
        return ("r", ctx.rng.choice(pool) if pool else ctx.range(z, mb))
    return ("l", ctx.some_list(z, mb, ctx.rng.choice([0, 1, 1, 2, 2, 3, 4]), pool))


def related(ctx, z, mb, x, kinds, pool):
    """Another operand, often close to x."""
    rs = flat(x)
    if rs and ctx.rng.random() < .6:
        r = ctx.rng.choice(rs)
        r = (tuple(r[0]), tuple(r[1]))
        s = ctx.near(z, r, mb)
        k = ctx.rng.choice(kinds)
        if k == "v":
            return ("v", ctx.rng.choice(s + r))
        if k == "r":
            return ("r", ctx.rng.choice([s, s, r]))
        out = [s]
        for _ in range(ctx.rng.choice([0, 1, 2])):
            q = ctx.rng.choice(rs)
            out.append(ctx.near(z, (tuple(q[0]), tuple(q[1])), mb))
        return ("l", ctx.groups(out))
    return operand(ctx, z, mb, kinds, pool)


def C07(ctx):
    rec, rng = ctx.rec, ctx.rng
    PR = ("disjoint", "contains", "surrounds", "adjacent")

    def go(x, y):
        for o in PR:
            if x[0] == "l" and o in ("surrounds", "adjacent"):
                continue
            f = ctx.arg(rng.choice(ALLF)) if o == "adjacent" or (o == "contains" and x[0] == "l") else -1
            if eff(rec, f) in (0, 1) and hz(x, y):
                continue
            predicate(rec, o, x, y, f, op=(o == "contains" and rng.random() < .3 and f == -1))

    def hz(*xs):
        return any(q[2] == 0 for x in xs for r in flat(x) for q in r)
    for c in MINIS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            pool = T.ranges(g, True)
            for r in ctx.deal(pool):
                for s in pool:
                    if ctx.thorough or rng.random() < .12:
                        go(("r", r), ("r", s))
                for v in T.verses(zz(g)):
                    if ctx.thorough or rng.random() < .25:
                        go(("r", r), ("v", v))
            for _ in range(ctx.scale(250, 5000)):
                x = operand(ctx, zz(g), True, "rl", pool)
                go(x, related(ctx, zz(g), True, x, "vrll", pool))
                if rng.random() < .25:
                    x, y = pieced(ctx, zz(g), True, pool)
                    go(x, y)
                    go(y if y[0] != "v" else x, x)
    for c in FULLS:
        for g in ALLF:
            rec.reset(c, g)
            for _ in range(ctx.scale(120, 2500)):
                mb = rng.random() < .6
                x = operand(ctx, zz(g), mb, "rl", None)
                go(x, related(ctx, zz(g), mb, x, "vrl", None))
                if rng.random() < .25:
                    go(*pieced(ctx, zz(g), mb, None))
    def long(gs, f):
        z = zz(eff(rec, f))
        pool = [r for g in gs for r in g]
        for o in ("contains", "disjoint"):
            for y in [("l", gs[:1]), ("l", [pool[-2:]]), ("r", pool[-1]), ("r", ctx.range(z, True)), ("v", ctx.verse(z)), ("l", ctx.long_list(z, True, 5))]:
                for x, w in [(("l", gs), y), (y, ("l", gs))]:
                    u = f if o == "contains" and x[0] == "l" else -1
                    if x[0] != "v" and not (eff(rec, u) in (0, 1) and hz(x, w)):
                        predicate(rec, o, x, w, u)
    ctx.long_lists(SIZES, 130, long)


OPS = ("or", "and", "sub", "xor")


def pieced(ctx, z, mb, pool):
    """A list of the pieces of a range, with the range or something near it, as operands."""
    gs, r = ctx.pieces(z, mb, pool)
    return ("l", gs), ("r", r) if ctx.rng.random() < .6 else related(ctx, z, mb, ("r", r), "vrll", pool)


def C08(ctx):
    rec, rng = ctx.rec, ctx.rng

    def go(o, x, y, f):
        setop(rec, o, x, y, f, op=(f == -1 and rng.random() < .7))
    for c in MINIS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            pools = {z: T.ranges(2 * z - 1 if z == 2 else 1, True) for z in (1, 2)}
            pool = pools[zz(g)]
            for r in ctx.deal(pool):
                for s in pool:
                    if ctx.thorough or rng.random() < .05:
                        for o in OPS:
                            go(o, ("r", r), ("r", s), -1)
            for _ in range(ctx.scale(260, 6000)):
                f = ctx.arg(rng.choice(ALLF))
                z = zz(eff(rec, f))
                x = operand(ctx, z, True, "rll", pools[z])
                y = related(ctx, z, True, x, "vrll", pools[z])
                if rng.random() < .2:
                    x, y = pieced(ctx, z, True, pools[z])
                for o in OPS:
                    go(o, x, y, f)
    for c in FULLS:
        for g in ALLF:
            rec.reset(c, g)
            for _ in range(ctx.scale(60, 1500)):
                f = ctx.arg(rng.choice(ALLF))
                z = zz(eff(rec, f))
                mb = rng.random() < .6
                x = operand(ctx, z, mb, "rll", None)
                y = related(ctx, z, mb, x, "vrll", None)
                if rng.random() < .2:
                    x, y = pieced(ctx, z, mb, None)
                for o in OPS:
                    go(o, x, y, f)
    def long(gs, f):
        z = zz(eff(rec, f))
        r = rng.choice(rng.choice(gs))
        for y in [("r", r), ("l", ctx.long_list(z, True, rng.choice([1, 9, 40]))), ("v", r[0])]:
            o = rng.choice(OPS)
            go(o, ("l", gs), y, f)
            if y[0] != "v":
                go(rng.choice(OPS), y, ("l", gs), f)
    ctx.long_lists(SIZES[:-2] if not ctx.thorough else SIZES, 70, long)


def C09(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in MINIS + FULLS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            pools = {z: (T.ranges(2 * z - 1 if z == 2 else 1, True) if c in MINIS else None) for z in (1, 2)}
            for _ in range(ctx.scale(140 if c in MINIS else 35, 4000 if c in MINIS else 800)):
                f = ctx.arg(rng.choice(ALLF))
                z = zz(eff(rec, f))
                x = ("l", ctx.some_list(z, True, rng.choice([0, 1, 2, 2, 3, 4]), pools[z]))
                y = related(ctx, z, True, x, "vrll", pools[z])
                if rng.random() < .2:
                    x, y = pieced(ctx, z, True, pools[z])
                for o in OPS:
                    update(rec, o, x, y, f, op=(f == -1 and rng.random() < .7), alias=rng.random() < .1)
                merge(rec, x, f)
    def long(gs, f):
        z = zz(eff(rec, f))
        merge(rec, ("l", gs), f)
        update(rec, rng.choice(OPS), ("l", gs), ("l", ctx.long_list(z, True, rng.choice([1, 9, 40]))), f)
        update(rec, rng.choice(OPS), ("l", ctx.long_list(z, True, rng.choice([1, 9]))), ("l", gs), f)
    ctx.long_lists(SIZES[:-2] if not ctx.thorough else SIZES, 70, long)


def C13(ctx):
    rec, rng = ctx.rec, ctx.rng

    def o():
        return rng.choice(OPTS)
    for c in MINIS:
        for g in ALLF:
            rec.reset(named(c, g), g)
            T = rec.T
            for x in ctx.deal(T.verses(zz(g))):
                for q in ctx.scale([o(), o()], OPTS):
                    rt_verse(rec, x, q, ctx.arg(g))
            for r in ctx.deal(T.ranges(g)):
                for q in ctx.scale([o(), o()], OPTS):
                    rt_range(rec, r, q, ctx.arg(g))
    for c in FULLS:
        for g in ALLF:
            rec.reset(named(c, g), g)
            for b in ctx.deal(rec.T.order):
                for ab, ns in itertools.product((0, 1), repeat=2):
                    ch = rng.randint(1, len(rec.T.mx[b]))
                    rt_verse(rec, ctx.verse(zz(g), b), (ab, rng.random() < .5, ns, 1, 0), ctx.arg(g))
                    rt_range(rec, ((b, 1, rec.T.minv(b, 1, zz(g))), (b, len(rec.T.mx[b]), rec.T.mx[b][-1])), (ab, 0, ns, 1, 0), ctx.arg(g))
            for _ in range(ctx.scale(60, 1500)):
                f = ctx.arg(rng.choice(ALLF))
                e = eff(rec, f)
                rt_range(rec, ctx.range(zz(e), multi(e)), o(), f)
                rt_verse(rec, ctx.verse(zz(e)), o(), f)


def C14(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in MINIS:
        for g in ALLF:
            rec.reset(named(c, g), g)
            T = rec.T
            pool = T.ranges(g)
            if c == (4, 4, 4, 1) and g in (1, 3):         # all pairs of ranges, both groupings
                for r in ctx.deal(pool):
                    for s in pool:
                        for gs in ([[r, s]], [[r], [s]]):
                            if ctx.thorough or rng.random() < .35:
                                rt_list(rec, gs, rng.choice(OPTS), -1)
            for _ in range(ctx.scale(90, 3000)):
                f = ctx.arg(g)
                rt_list(rec, ctx.some_list(zz(g), multi(g), rng.choice([0, 1, 2, 2, 3, 3, 4, 5]) or 1, pool), rng.choice(OPTS), f)
    for c in FULLS:
        for g in ALLF:
            rec.reset(named(c, g), g)
            for _ in range(ctx.scale(35, 1000)):
                f = ctx.arg(rng.choice(ALLF))
                e = eff(rec, f)
                rt_list(rec, ctx.some_list(zz(e), multi(e), rng.choice([1, 2, 3, 4, 5, 6])), rng.choice(OPTS), f)
    ctx.long_lists([17, 33, 48], 33, lambda gs, f: rt_list(rec, gs, rng.choice(OPTS), f))


def C20(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in MINIS + FULLS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            mini = c in MINIS
            pools = {e: T.ranges(e) if mini else None for e in ALLF}
            if c == (4, 4, 4, 1):
                for r in ctx.deal(pools[g]):
                    for s in pools[g]:
                        regroup(rec, [[r, s]], -1)
            for _ in range(ctx.scale(300 if mini else 120, 6000 if mini else 2000)):
                f = ctx.arg(rng.choice(ALLF))
                e = eff(rec, f)
                gs = ctx.some_list(zz(e), multi(e), rng.choice([0, 1, 2, 3, 3, 4, 6]), pools[e])
                regroup(rec, gs, f)
                if gs and rng.random() < .3:
                    rt_conv(rec, gs, rng.choice(OPTS), f)
    ctx.long_lists(SIZES, 600, lambda gs, f: regroup(rec, gs, f))


def C21(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in MINIS + FULLS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            mini = c in MINIS
            vs = T.verses(2) if mini or (ctx.thorough and g == 0) else \
                [(b, ch, v) for b in T.order for ch in range(1, len(T.mx[b]) + 1)
                 for v in sorted({T.minv(b, ch, 2), 1, 2, T.mx[b][ch - 1]}) if v <= T.mx[b][ch - 1]]
            for x in ctx.deal(vs):
                for t in (True, False):
                    zero_verse(rec, x, t)
            pool = T.ranges(3) if mini else None
            for r in ctx.deal(pool) if mini else [ctx.range(2, True) for _ in range(ctx.scale(60, 1500))]:
                for t in (True, False):
                    zero_range(rec, r, t)
            for _ in range(ctx.scale(80, 1500)):
                zero_list(rec, ctx.some_list(2, True, rng.randint(0, 5), pool), rng.random() < .5)
    def long(gs, f):
        zero_list(rec, ctx.long_list(2, True, sum(map(len, gs))), rng.random() < .5)
    ctx.long_lists(SIZES, 1100, long)


def C22(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in MINIS + FULLS:
        for g in ALLF:
            rec.reset(c, g)
            T = rec.T
            mini = c in MINIS
            for f in ARGS:
                if ctx.mine():
                    whole(rec, f)
                for b in ctx.deal(T.order):
                    if mini or (b + g) % 5 == f + 1 or ctx.thorough:
                        expand_book(rec, b, f)
                    for ch in range(0, len(T.mx[b]) + 2):
                        if mini or ctx.thorough or (b + ch + g) % 5 == f + 1:
                            expand_chap(rec, b, ch, f)
            for f in ARGS:
                e = eff(rec, f)
                if mini:
                    for x in ctx.deal(T.verses(zz(e))):
                        expand_verse(rec, x, f)
                    for r in ctx.deal(T.ranges(e, True)):
                        shape(rec, r, f)
                        if f == -1 or ctx.thorough or rng.random() < .4:
                            expand_range(rec, r, f)
            for _ in range(ctx.scale(60, 1500)):
                f = ctx.arg(rng.choice(ALLF))
                e = eff(rec, f)
                z = zz(e)
                pool = T.ranges(e, True) if mini else None
                expand_list(rec, ctx.some_list(z, True, rng.randint(1, 4), pool), f)
                if not mini:
                    expand_verse(rec, ctx.verse(z), f)
                    r = ctx.range(z, True)
                    shape(rec, r, f)
                    expand_range(rec, r, f)
                    if rng.random() < .5:
                        shape(rec, ctx.near(z, r, True), f)
    ctx.long_lists(SIZES[:6], 130, lambda gs, f: expand_list(rec, gs, f))


def C23(ctx):
    rec, rng = ctx.rec, ctx.rng
    PSETS = ["", "B", "C", "V", "BC", "CV", "BV", "BCV"]
    for c in MINIS + FULLS:
        for g in ALLF:
            rec.reset(named(c, g), g)
            T = rec.T
            mini = c in MINIS
            z = zz(g)
            pool = T.ranges(g) if mini else None
            for x in (ctx.deal(T.verses(z)) if mini else [ctx.verse(z) for _ in range(60)]):
                for q in itertools.product((0, 1), repeat=3):
                    o = q + (1, 0)
                    text_verse(rec, x, o)
                    text_parts(rec, x, o, rng.choice(PSETS))
                text_repr(rec, ("v", x))
            for r in (ctx.deal(pool) if mini else [ctx.range(z, multi(g)) for _ in range(ctx.scale(80, 1500))]):
                for q in (OPTS if ctx.thorough else rng.sample(OPTS, 8)):
                    text_range(rec, r, q, ctx.arg(g))
                text_repr(rec, ("r", r))
            if not mini:
                for b in ctx.deal(T.order):
                    x = ctx.verse(z, b)
                    for q in itertools.product((0, 1), repeat=3):
                        text_verse(rec, x, q + (1, 0))
            for _ in range(ctx.scale(150 if mini else 60, 5000 if mini else 1500)):
                f = ctx.arg(rng.choice(ALLF))
                e = eff(rec, f)
                gs = ctx.some_list(zz(e), multi(e), rng.choice([0, 1, 2, 3, 4]), T.ranges(e) if mini else None)
                for q in rng.sample(OPTS, 3):
                    text_list(rec, gs, q, f)
                if f == -1:
                    text_repr(rec, ("l", gs))
                    for i in range(min(2, len(gs))):
                        text_group(rec, gs, i, rng.random() < .5)
    def long(gs, f):
        for q in rng.sample(OPTS, 2):
            text_list(rec, gs, q, f)
        if f == -1:
            text_repr(rec, ("l", gs))
            text_group(rec, gs, len(gs) - 1, rng.random() < .5)
    ctx.long_lists(SIZES, 1100, long)
