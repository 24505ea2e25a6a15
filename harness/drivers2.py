"""Drivers for the properties about histories: lists, parsing, names, flags and reconfiguration."""
import json, os, random, re, sys, time
from fractions import Fraction
from core import *
from ops import *
import ops
from gl import Session, K, POOL, GroupedList
from sentences import *
from core import _ref
from drivers import ALLF, ARGS, OPTS, eff, name_of


# --- grouped lists -------------------------------------------------------------------------------------------
def replay(ctx, sample, follow, looks):
    """Replay the generated behaviours: the history to each state, then one of the operations to try there, then a few
    random operations (which show damage that the operation left behind)."""
    rec, rng = ctx.rec, ctx.rng
    sess = {k: Session(rec, k) for k in "KNR"}
    n = 0
    for line in open(ctx.behaviours):
        b = json.loads(line)
        for op in b["c"]:
            n += 1
            if not ctx.mine(n) or rng.random() > sample:
                continue
            s = sess["RKN"[n % 3] if n % 2 else "RKK"[n % 3]]
            s.restart()
            for h in b["h"]:
                s.do(h["o"], h["a"], h["vs"], look=n % 2 == 0)
            s.do(op["o"], op["a"], op["vs"])
            for _ in range(follow):
                s.step(rng, 8, views=len(s.views) + 1)
        n += 1
        if ctx.mine(n) or looks:
            s = sess[rng.choice("KKKKKNNRRR")]
            s.restart()
            for h in b["h"]:
                s.do(h["o"], h["a"], h["vs"])
            for op in b["l"]:
                s.do(op["o"], op["a"], op["vs"])


def histories(ctx, count, length, views):
    rng = ctx.rng
    sess = {k: Session(ctx.rec, k) for k in "KNR"}
    for i in range(count):
        s = sess["RKKNRK"[i % 6]]
        s.restart()
        big = rng.choice([3, 6, 6, 12, 20, 40])
        blind = rng.choice([0, 0, .5, .8, .95])
        for _ in range(rng.randint(length // 2, length)):
            s.step(rng, big, views=views, look=rng.random() >= blind)
        s.do("flat")


def probes(ctx, count, views):
    """Read something, change the list so that often its length stays the same, read the same or what is next to it; looking at
    nothing else in between."""
    rng = ctx.rng
    sess = {k: Session(ctx.rec, k) for k in "KNR"}
    for i in range(count):
        s = sess["KRKNKR"[i % 6]]
        s.restart()
        kv = lambda: 1000 * rng.randint(1, 4)
        n = rng.choice([2, 3, 4, 5, 6, 8, 11])
        sizes = chop(rng, n)
        do = lambda o, a=(), vs=(): s.do(o, a, vs, look=False)
        for g in sizes:
            do("grp", [], [kv() for _ in range(g)])
        ix = rng.randint(0, n - 1)
        v = kv()
        if views:
            for g in range(min(len(sizes), 3)):
                do("view", [rng.choice([g, g - len(sizes)])])
        W = len(s.views)
        readers = ["get"] * 3 + ["cnt", "has", "idxn", "idx", "flat", "back", "nest", "ngrp"] + ["vget", "vget", "vall", "vlen"] * (1 if W else 0) \
            + ["view"] * (1 if views else 0)
        reader = rng.choice(readers)
        w = rng.randint(1, W) if W else 0

        def read(d):
            o = reader if rng.random() < .9 else rng.choice(readers)
            j = min(n - 1, max(0, ix + d))
            if o == "get":
                do("get", [j if rng.random() < .7 else j - n])
            elif o in ("cnt", "has", "idxn"):
                do(o, [], [v])
            elif o == "idx":
                m = min(n, len(s.l))          # limits beyond the end are left open
                if j // 2 < m:
                    do(o, [j // 2, m], [v])
            elif o == "vget":
                do(o, [w, j % 3])
            elif o in ("vall", "vlen"):
                do(o, [w])
            elif o == "view":
                do(o, [rng.randint(-1, len(sizes) - 1)])
            else:
                do(o)
        for d in range(rng.choice([1, 1, 2])):
            read(d)
        for _ in range(rng.choice([1, 1, 1, 2])):
            j = rng.choice([ix, ix, rng.randint(0, n - 1), 0, n - 1])
            m = rng.choice(["sort", "rev", "set", "clrg", "gat", "clrg-gat", "del-ins", "pop-app", "pop-pre", "del-grp", "clr-grp", "rem-ins", "ins-popn", "copy"] + ["zto1", "oneto0", "zto1-oneto0"] * (s.kind == "R")
                           + ["vset", "vdel", "vdel-ins"] * (1 if W else 0))
            for o in m.split("-"):
                if o == "set" or o == "ins":
                    do(o, [j], [kv()])
                elif o in ("gat", "del", "pop"):
                    do(o, [j])
                elif o in ("app", "pre"):
                    do(o, [rng.randint(0, 1)], [kv()])
                elif o == "grp":
                    do(o, [], [kv() for _ in range(n if m == "clr-grp" else 1)])
                elif o == "rem":
                    do(o, [], [v])
                elif o == "vset":
                    do(o, [w, j % 3], [kv()])
                elif o == "vdel":
                    do(o, [w, j % 3])
                else:
                    do(o)
        for d in range(rng.choice([1, 1, 2])):
            read(rng.choice([d, 1, 0, -1]))
        s.do("flat")


def long_lists(ctx, sizes):
    """Lists and groups long enough for a way of doing it that depends on the length, or whose depth does."""
    rng = ctx.rng
    for n in ctx.deal(sizes):
        s = Session(ctx.rec, rng.choice("KKNR"))
        kv = lambda: 1000 * rng.randint(1, 4)
        for g in ([n] if rng.random() < .5 else chop(rng, n) if n < 200 or rng.random() < .5 else [1] * n):
            s.do("grp", [], [kv() for _ in range(g)], look=False)
        for g in (0, -1):
            s.do("view", [g])
        for o, a, vs in [("vlen", [1], 0), ("app", [1], 1), ("gat", [rng.randint(n // 2, n)], 0), ("vall", [2], 0), ("vget", [1, n - 1], 0), ("ins", [n // 2], 1),
                         ("get", [n // 3], 0), ("back", [], 0), ("nest", [], 0), ("ngrp", [], 0), ("idxn", [], 1), ("cnt", [], 1), ("copy", [], 0),
                         ("pop", [0], 0), ("view", [-1], 0), ("extv", [3], 0), ("pre", [1], 1), ("vdel", [3, 0], 0), ("clrg", [], 0), ("gat", [-2], 0),
                         ("rev", [], 0), ("popn", [], 0), ("get", [-3], 0), ("clr", [], 0), ("app", [0], 1)]:
            if rng.random() < .75:
                s.do(o, a, [kv() for _ in range(vs)], look=n < 200 or rng.random() < .3)
        s.do("flat")
        # lists made from a long list, in every way
        s = Session(ctx.rec, "R")
        for g in rng.choice([[n, 2], [2, n], [n]]):
            s.do("grp", [], [kv() for _ in range(g)], look=False)
        for _ in range(6):
            s.do("copy", [], look=False)
        for o, a, vs in [("nest", [], 0), ("app", [1], 1), ("ngrp", [], 0), ("copy", [], 0), ("back", [], 0), ("flatcopy", [], 0), ("ngrp", [], 0)]:
            s.do(o, a, [kv() for _ in range(vs)], look=False)
        s.do("flat")


LONG_SIZES = [15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 1001, 1100, 1300]


def C10(ctx):
    long_lists(ctx, LONG_SIZES)
    replay(ctx, 1.0, 2, False)
    histories(ctx, ctx.scale(60, 1200), 60, 0)
    probes(ctx, ctx.scale(120, 2500), False)


def C11(ctx):
    long_lists(ctx, LONG_SIZES)
    replay(ctx, 1.0, 2, False)
    histories(ctx, ctx.scale(60, 1200), 60, 4)
    probes(ctx, ctx.scale(120, 2500), True)


# --- sorting -------------------------------------------------------------------------------------------------
class Perm:
    """Result of a sort or reversal: not encoded any further."""


def long_sort(rec, keys, groups, reverse=False):
    """groups: sizes of the groups before."""
    vals = [K(k, i + 1) for i, k in enumerate(keys)]
    l = GroupedList()
    i = 0
    for g in groups:
        l.append_group(vals[i:i + g])
        i += g
    n = len(keys)
    cap = n + 3
    out = {}

    def seq(it):
        r = []
        for x in it:
            r.append(x.uid)
            if len(r) > cap:
                break
        return r

    def sizes():
        r = []
        for g in l.groups:
            c = 0
            for _ in g:
                c += 1
                if c > cap:
                    break
            r.append(c)
            if len(r) > cap:
                break
        return r

    def go():
        if reverse:
            l.reverse()
        else:
            l.sort()
        if len(l) != n:
            return 1
        out.update(v=seq(l), bk=seq(reversed(l)), gl=sizes())
        if n:
            l.pop(0)
        l.append(K(0, n + 1), new_group=True)
        if len(l) > 2:
            l.insert_group_at(1)
        out.update(v2=seq(l), gl2=sizes())
        return 0
    k, v, ex = guarded(go, 60)
    ok = (k, v) == ("int", 0)
    rec.raw("l.rev" if reverse else "l.sort", -1, "perm" if ok else k, out["v"] if ok else [], ks=keys, bk=out.get("bk", []),
            gl=out.get("gl", []), v2=out.get("v2", []), gl2=out.get("gl2", []), err="" if ok else str(v))


def long_keys(rec, l, items, key, groups, sort):
    i = 0
    for g in groups:
        l.append_group(items[i:i + g])
        i += g
    out = {}

    def go():
        sort()
        out.update(v=[key(x) for x in l], bk=[key(x) for x in reversed(l)], gl=[len(g) for g in l.groups])
        return 0
    k, v, ex = guarded(go, 60)
    ok = (k, v) == ("int", 0)
    rec.raw("l.keys", -1, "perm" if ok else k, out["v"] if ok else [], ks=[key(x) for x in items], bk=out.get("bk", []), gl=out.get("gl", []))


def long_ranges(rec, keys, groups):
    l = BibleRangeList()
    pool = [R(p) for p in POOL]
    where = {x: j + 1 for j, x in enumerate(pool)}
    long_keys(rec, l, [pool[k - 1] for k in keys], lambda x: where[x], groups, lambda: l.sort(regroup=False))


def long_numbers(rec, rng, keys, groups):
    """Numbers of several kinds, which compare with each other, halves among them; or texts."""
    l = GroupedList()
    if rng.random() < .2:
        items, key = [chr(200 + k) * (1 + k % 3) for k in keys], lambda x: ord(x[0]) - 200
    else:
        make = [int, float, Fraction, lambda k: Fraction(k) / 2, lambda k: k / 2, lambda k: k > 1]
        items, key = [rng.choice(make)(k) for k in keys], lambda x: int(2 * x)
    long_keys(rec, l, items, key, groups, l.sort)


def patterns(rng, n):
    h = n // 2
    return [list(range(1, n + 1)), list(range(n, 0, -1)), [1] * n, [i % 2 for i in range(n)], [rng.randint(1, 3) for _ in range(n)],
            [rng.randint(1, max(1, n)) for _ in range(n)], list(range(h)) + list(range(n - h)), [i % 7 for i in range(n)],
            list(range(h)) + list(range(n - h, 0, -1)), [-((i * 7919) % 101) for i in range(n)], [2] * (n - 1) + [1] * (n > 0),
            [2] * (n > 0) + [1] * (n - 1)]


def chop(rng, n):
    out = []
    while n:
        g = rng.choice([1, 1, 2, 3, n]) if rng.random() < .8 else rng.randint(1, n)
        g = min(g, n)
        out.append(g)
        n -= g
    return out


def C12(ctx):
    import itertools
    rec, rng = ctx.rec, ctx.rng
    rec.reset(DEFAULT, 3)
    small = [ks for n in range(0, ctx.scale(6, 8)) for ks in itertools.product((1, 2, 3), repeat=n)]
    for ks in ctx.deal(small):
        long_sort(rec, list(ks), chop(rng, len(ks)))
        if len(ks) < 5:
            long_sort(rec, list(ks), chop(rng, len(ks)), reverse=True)
    for perm in ctx.deal(itertools.permutations(range(1, ctx.scale(7, 8)))):
        long_sort(rec, list(perm), chop(rng, len(perm)))
    sizes = list(range(7, 40)) + [63, 64, 65, 100, 127, 128, 129, 200, 255, 257, 500, 998, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2049]
    work = [(n, j) for n in sizes for j in range(12)]
    for n, j in ctx.deal(work):
        ks = patterns(rng, n)[j]
        long_sort(rec, ks, chop(rng, n), reverse=rng.random() < .15)
    for n, j in ctx.deal([(n, j) for n in (ctx.scale([4097, 9999], [4097, 10000, 30000])) for j in range(12)]):
        long_sort(rec, patterns(rng, n)[j], [n] if j % 2 else [1] * n, reverse=j == 3)
    for n in ctx.deal([0, 1, 2, 3, 5, 9, 20, 40, 100, 300, 999, 1100, 2500, 3, 4, 7]):
        long_ranges(rec, [rng.randint(1, 9) for _ in range(n)], chop(rng, n))
        long_ranges(rec, [9 - (i * 9) // n for i in range(n)], chop(rng, n))
    for n in [0, 1, 2, 3, 5, 9, 20, 40, 100, 300, 1100] + [rng.randint(2, 12) for _ in range(ctx.scale(10, 200))]:
        long_numbers(rec, rng, [rng.randint(0, 9) for _ in range(n)], chop(rng, n))
    for c in MINIS + FULLS:
        for g in ALLF:
            rec.reset(c, g)
            pool = rec.T.ranges(g) if c in MINIS else None
            for _ in range(ctx.scale(60, 1500)):
                gs = ctx.some_list(zz(g), multi(g), rng.choice([0, 1, 2, 3, 4, 6, 9]), pool)
                rng.shuffle(gs)
                for x in gs:
                    rng.shuffle(x)
                sort(rec, gs, rng.random() < .7)


# --- parsing -------------------------------------------------------------------------------------------------
def say(ctx, sent, f, fancy=False, how="parse", trail=None):
    t = Text(ctx.rec, ctx.rng, fancy, trail)
    text = t.write(sent)
    return parse(ctx.rec, sent, text, t.spans, f, how)


def C15(ctx):
    rec, rng = ctx.rec, ctx.rng
    # continuations of every reachable parse context, on the miniature Bibles
    states, refs = {}, {}
    for line in open(ctx.behaviours):
        b = json.loads(line)
        states.setdefault((b["cfg"], b["f"]), []).append(b["h"])
        if b["refs"]:
            refs[b["cfg"]] = b["refs"]
    frac = ctx.scale(.11, 1.0)
    duals = ctx.scale(12, 400)
    n = 0
    for c in MINIS[:3]:
        for e in ALLF:
            rec.reset(named(c, e), e if rng.random() < .5 else rng.choice(ALLF))
            for h in states[(c[0], e)]:
                for sep in (("maj", "min") if h else ("",)):
                    n += 1
                    for j, r in enumerate(refs.get(c[0], [])):
                        if ctx.mine(n + j) and rng.random() < frac:
                            say(ctx, h + [item(sep, r)], ctx.arg(e), rng.random() < .3)
                    for _ in range(duals):
                        if ctx.mine():
                            a, b = rng.choice(refs[c[0]]), rng.choice(refs[c[0]])
                            if rng.random() < .5:
                                b = dict(b, bk=0)
                                if not b["ns"]:
                                    continue
                            say(ctx, h + [item(sep, a, b)], ctx.arg(e), rng.random() < .3)
    # longer sentences, all Bibles, all spellings
    for c in FULLS + MINIS:
        for g in ALLF:
            rec.reset(named(c, g), g)
            for _ in range(ctx.scale(35, 900)):
                f = ctx.arg(rng.choice(ALLF))
                e = eff(rec, f)
                s = random_sentence(ctx, zz(e), multi(e), rng.choice([1, 1, 2, 3, 3, 4, 6, 6 if rng.random() < .9 else rng.randint(10, 40)]), rng.random() < .15)
                say(ctx, s, f, rng.random() < .7, rng.choice(["parse", "parse", "parse", "parse.r", "parse.v"]),
                    rng.choice([None, None, None, "maj", "min"]))
    # the single-reference constructors
    for c in MINIS:
        for g in ALLF:
            rec.reset(named(c, g), g)
            for j, r in enumerate(refs.get(c[0], [])):
                if ctx.mine(j) and (ctx.thorough or rng.random() < .4):
                    say(ctx, [item("", r)], ctx.arg(g), False, "parse.v", rng.choice([None, None, "maj"]))
                    say(ctx, [item("", r)], ctx.arg(g), False, "parse.r", rng.choice([None, None, "min"]))
    # every book under every name
    for c in [DEFAULT]:
        rec.reset(c, 0)
        for b in ctx.deal(range(1, 67)):
            for x in accepted(1)[b]:
                for y in {x, x.upper(), x.lower()}:
                    s = [item("", {"bk": b, "ns": [1, 1] if rng.random() < .5 else [1]})]
                    t = y + rng.choice([" ", ""]) + ("1:1" if len(s[0]["a"]["ns"]) == 2 else "1")
                    parse(rec, s, t, [[[0, len(t)], [0, 0], [0, len(t)]]], -1)


JUNK = list("0123456789:.;,- \t\n") + ["Gen", "Matt", "1 John", "Jude", "Psa", "III", "xyz", "1", "2", "3", "99", "0", "-", ";", ",", ":",
        ".", "  ", "John 3:16", "Psalm", "1", "٣", "²", "é", "–", "\x00", "\u2003", "_", "(", ")", "\\", "\"", "'", "/", "ſ", "K", "\ud800",
        "Ⅳ", "1 ", "99999999999", "Song of Songs", "\u200b", "½", "#", "|", "Ge", "J", "3 John 1"]


def soup(rng, n):
    return "".join(rng.choice(JUNK) for _ in range(n))


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = rng.random()
        i = rng.randint(0, len(s))
        if p < .35 and s:
            del s[min(i, len(s) - 1)]
        elif p < .7:
            s.insert(i, rng.choice(JUNK))
        elif s:
            j = rng.randint(0, len(s))
            i, j = min(i, j), max(i, j)
            s[j:j] = s[i:j]
    return "".join(s)


_mine = {}


def outcome_of(fn):
    try:
        kk, v = enc(fn())
        return kk, v, [0, 0]
    except Exception as ex:
        p = [0, 0]
        if isinstance(ex, _ref.BibleRefParsingError):
            p = [x if plain_int(x) else -9 for x in (ex.start_pos, ex.end_pos)]
        return "err", category(ex), p


def two_parses(jobs, k, patience):
    """Run two constructors in two threads: the first is stopped at its k-th line inside the package, the second runs
    to its end, the first continues.  Returns ([outcome, outcome], whether the first got as far as line k, whether the
    second had to wait for the first)."""
    import threading
    src = os.path.realpath(SRC)
    out = [None, None]
    second_done, go2 = threading.Event(), threading.Event()
    seen = [0]
    waited = [False]

    def tracer(frame, event, arg):
        name = frame.f_code.co_filename
        mine = _mine.get(name)
        if mine is None:
            mine = _mine[name] = os.path.realpath(name).startswith(src)
        return lines if mine else None

    def lines(frame, event, arg):
        if event == "line":
            seen[0] += 1
            if seen[0] == k:
                go2.set()
                if not second_done.wait(patience):
                    waited[0] = True
        return lines

    def first():
        sys.settrace(tracer)
        try:
            out[0] = outcome_of(jobs[0])
        finally:
            sys.settrace(None)
            go2.set()

    def second():
        go2.wait()
        out[1] = outcome_of(jobs[1])
        second_done.set()
    ts = [threading.Thread(target=t, daemon=True) for t in (first, second)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(30)
    return [o or ("err", "hang", [0, 0]) for o in out], seen[0] >= k, waited[0]


def overlapping(jobs, j, k, patience):
    """As two_parses, but neither runs inside the other: the first stops at its j-th line, the second then runs to its
    k-th line, the first runs to its end, and then the second."""
    import threading
    src = os.path.realpath(SRC)
    out = [None, None]
    turn = [threading.Event(), threading.Event()]       # who may go on
    done = [threading.Event(), threading.Event()]
    stop = (j, k)
    seen = [0, 0]
    waited = [False]

    def runner(me):
        other = 1 - me

        def lines(frame, event, arg):
            if event == "line":
                seen[me] += 1
                if seen[me] == stop[me]:
                    turn[other].set()
                    turn[me].clear()
                    # the first waits for the second to stop, the second for the first to end
                    if not (turn[0] if me == 0 else done[0]).wait(patience):
                        waited[0] = True
            return lines

        def tracer(frame, event, arg):
            name = frame.f_code.co_filename
            mine = _mine.get(name)
            if mine is None:
                mine = _mine[name] = os.path.realpath(name).startswith(src)
            return lines if mine else None

        def go():
            if me == 1:
                turn[1].wait()
            sys.settrace(tracer)
            try:
                out[me] = outcome_of(jobs[me])
            finally:
                sys.settrace(None)
                done[me].set()
                turn[other].set()
        return go
    ts = [threading.Thread(target=runner(n), daemon=True) for n in (0, 1)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(30)
    return [o or ("err", "hang", [0, 0]) for o in out], seen[0] >= j and seen[1] >= k, waited[0]


def interleave(ctx, s1, s2, f, kmax, stride, offset, count=0):
    """f: the flags arguments of the two."""
    rec, rng = ctx.rec, ctx.rng
    texts = []
    for s in (s1, s2):
        t = Text(rec, rng)
        texts.append((s, t.write(s), t.spans))
    jobs = [lambda x=x, g=g: BibleRangeList(x[1], **kw(g)) for x, g in zip(texts, f)]

    def record(res):
        for (s, t, sp), (kk, v, p), g in zip(texts, res, f):
            rec.raw("parse", g, kk, v, s=s, t=t, span=sp, len=len(t), p=p)
        if time.process_time() > rec.deadline:
            raise Enough()
        if any(r[1] == "hang" for r in res):
            raise Enough()
    k = 1 + offset
    waits = 0
    last = 1
    while k < kmax:
        res, reached, waited = two_parses(jobs, k, 2.0)
        record(res)
        waits += waited
        if not reached or waits >= 2:
            break
        last = k
        k += stride
    for _ in range(count):
        if waits >= 2:
            break
        res, _, waited = overlapping(jobs, rng.randint(1, last), rng.randint(1, last), 2.0)
        record(res)
        waits += waited


def C16(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in [DEFAULT, DEFAULT, LONG] + MINIS:
        for g in ALLF:
            rec.reset(named(c, g), g)
            fixed = [random_sentence(ctx, zz(g), multi(g), rng.choice([1, 2, 3])) for _ in range(8)]
            for _ in range(ctx.scale(40, 1500)):
                f = ctx.arg(rng.choice(ALLF))
                p = rng.random()
                if p < .3:
                    total(rec, soup(rng, rng.choice([0, 1, 2, 3, 5, 8, 15])), f)
                elif p < .75:
                    t = Text(rec, rng, rng.random() < .4, rng.choice([None, None, "maj", "min"]))
                    total(rec, mutate(rng, t.write(random_sentence(ctx, 2, True, rng.choice([1, 2, 3]), True))), f)
                elif p < .85:
                    say(ctx, random_sentence(ctx, 2, True, rng.choice([1, 2, 3]), True), f)
                # whatever happened before, this means the same
                say(ctx, rng.choice(fixed), -1)
                if rng.random() < .15:
                    say(ctx, [item("", {"bk": 0, "ns": rng.choice([[1], [2], [1, 2]])})], f)   # nothing is carried over
    # extreme strings
    rec.reset(DEFAULT, 3)
    big = ["9" * 30, "Gen " + "9" * 5000, "Gen 1:" + "1" * 4400, "1" * 3000, "Gen 1" + ",2" * 400, "Gen 1;" * 150, "a" * 2000, "1 " * 500, "a " * 500,
           ":" * 50, "Gen" * 300, "Gen 1-" * 100, " " * 500, "\n" * 50 + "Gen", "Gen 1:1" + "-2" * 2, "I" * 500, "1 1 1 1 John", "\u00e9" * 100,
           "Gen 1:1,", "Gen 1:1;", "Gen 1:", "Gen :1", "-Gen", "Gen-", "Gen--Exod", ",", "1:1:1", "Gen 1:1:1", "Gen 1.1.1", "", "\ud83d"]
    for t in ctx.deal(big):
        for f in (0, 3):
            total(rec, t, f)
    # concurrent parses: every point at which one parse can be overtaken by another
    pairs = []
    for c in (DEFAULT, MINIS[0]):
        for g in (0, 3):
            pairs.append((c, g))
    for c, g in pairs:
        rec.reset(named(c, g), g)
        T = rec.T
        rng2 = random.Random("%s/%s/%s" % (ctx.seed, c, g))    # the same pairs in all shards
        keep, ctx.rng = ctx.rng, rng2
        sents = [(random_sentence(ctx, zz(g), multi(g), 2), random_sentence(ctx, zz(g), multi(g), 2)) for _ in range(ctx.scale(2, 10))]
        b1, b2 = T.order[0], T.order[1]
        sents.append(([item("", {"bk": b1, "ns": [1, 1]}), item("min", {"bk": 0, "ns": [2]}), item("maj", {"bk": 0, "ns": [1]})],
                      [item("", {"bk": b2, "ns": []}), item("min", {"bk": 0, "ns": [1]})]))
        sents.append(([item("", {"bk": b1, "ns": [1]}), item("min", {"bk": 0, "ns": [1, 1]})],
                      [item("", {"bk": b1, "ns": [999]})]))
        ctx.rng = keep
        for s1, s2 in sents:
            interleave(ctx, s1, s2, (-1, -1), 4000, ctx.nshards * ctx.scale(3, 1), ctx.shard, ctx.scale(8, 100))
        # strings that mean different things under different flags
        z = next((b, ch) for b in T.order for ch in sorted(T.v0[b]))
        w = [[item("", {"bk": b1, "ns": [1]}, {"bk": b2, "ns": [1]})], [item("", {"bk": z[0], "ns": [z[1], 0]})], [item("", {"bk": z[0], "ns": [z[1]]})]]
        for s in w:
            for fs in ((0, 3), (3, 0), (-1, 2), (1, -1)):
                interleave(ctx, s, rng.choice(w), fs, 4000, ctx.nshards * ctx.scale(6, 1), ctx.shard, ctx.scale(4, 50))


# --- names ---------------------------------------------------------------------------------------------------
def C17(ctx):
    import string
    rec, rng = ctx.rec, ctx.rng
    letters = string.ascii_lowercase
    WHITE = " \t\n\r\x0b\x0c\u00a0\u3000"

    def white():
        return "".join(rng.choice(WHITE) for _ in range(rng.choice([1, 1, 2, 3])))

    def cases(x):
        return {x, x.upper(), x.lower(), "".join(rng.choice([c.upper(), c.lower()]) for c in x)}
    for c in [DEFAULT, (2, 2, 2, 2), (1, 1, 1, 3), (2, 1, 1, 4), (1, 1, 1, 5), (4, 1, 1, 1)]:
        few = c[3] == 5 or c[3] == 1 and rec.cfg is not None and rec.cfg[3] == 5
        rec.reset(c, 0)
        n = c[3]
        letters = string.ascii_lowercase + ("\u043c\u0430\u0444\u0446\u043f\u0438\u0435\u0441\u044c\u00e8\u00fa\u00e3\u03b1\u03bb\u03c8\u03af" if n == 4 else "")
        for b in ctx.deal([b for b in range(1, 67) if CFG["names"][n - 1][b - 1][1]]):
            ab, title, mn = CFG["names"][n - 1][b - 1]
            d = title[0] if title[:2] in ("1 ", "2 ", "3 ") else ""
            stem = title[2:] if d else title
            extras = extras_of(n, b)
            words = set()
            for k in range(0, len(stem) + 1):
                s = stem[:k]
                if not d:
                    words.add(s)
                for q in ("1", "2", "3", "I", "II", "III", "4", "0", "IV"):
                    for w in ("", " ", "  ", "\t", "\n"):
                        if d or rng.random() < .05:
                            if ctx.thorough or q in (d, "I" * int(d or 1)) or rng.random() < .4:
                                words.add(q + w + s)
                if d:
                    words.add(s)
            words |= set(extras) | {ab, title, stem}
            for x in list(words):
                if " " in x:
                    words.add(x.replace(" ", ""))
                    words.add(x.replace(" ", "  "))
                    words.add(x.replace(" ", " \t "))
                    words.add(x.replace(" ", white()))
                if rng.random() < .3:
                    words.add(rng.choice([" ", "\t", "\n ", "", white()]) + x + rng.choice(["", " ", "  ", white()]))
            near = set()
            for x in [ab, title, stem[:mn], (d + " " + stem[:mn]) if d else stem] + list(extras):
                for _ in range(ctx.scale(6, 60)):
                    i = rng.randint(0, len(x))
                    ch = rng.choice(letters + string.digits + " .-'|()*?\\[]+$^" + "I")
                    near.add(rng.choice([x[:i] + ch + x[i:], x[:max(0, i - 1)] + x[i:], x[:max(0, i - 1)] + ch + x[i:],
                                         x + x, x + " " + ab, x[:i] + " " + x[i:], x + ch]))
            # what the book is called in other tables
            for t in range(1, len(CFG["names"]) + 1):
                if t != n and CFG["names"][t - 1][b - 1][1]:
                    o = [CFG["names"][t - 1][b - 1][0], CFG["names"][t - 1][b - 1][1]] + list(extras_of(t, b))
                    for x in o if ctx.thorough else o[:3]:
                        name(rec, x)
            for x in sorted(words):
                if few and rng.random() < .6:
                    continue
                for y in (sorted(cases(x)) if ctx.thorough else sorted({x, rng.choice(sorted(cases(x)))})):
                    name(rec, y, rng.random() < .1)
            for x in sorted(near)[::3 if few else 1]:
                name(rec, x, rng.random() < .3)
        # short strings
        if few:
            continue
        two = [a + b for a in letters for b in letters] + [a for a in letters] + ["", " ", "1", "I", "1 ", "III "]
        for x in ctx.deal(two):
            name(rec, x)
        for x in ctx.deal([a + b + c2 for a in letters for b in letters for c2 in letters]):
            if ctx.thorough or rng.random() < .12:
                name(rec, x)
        for x in ctx.deal([q + w + a + b for q in ("1", "2", "3", "I ", "II ", "III ") for w in ("", " ") for a in letters for b in letters]):
            if ctx.thorough or rng.random() < .05:
                name(rec, x)
    # names in constructors and in strings
    rec.reset(DEFAULT, 0)
    for b in ctx.deal(range(1, 67)):
        for x in accepted(1)[b]:
            verse_new(rec, (b, 1, 1), -1, x)
            s = [item("", {"bk": b, "ns": [1]})]
            parse(rec, s, x + " 1", [[[0, len(x) + 2], [0, 0], [0, len(x) + 2]]], -1)
        for x in ("Genx", "4 John", "", "1", "xyz", "J"):
            rec.call("v.new", -1, lambda: BibleVerse(x, 1, 1), b=0, c=1, n=1)


# --- any operation ---------------------------------------------------------------------------------------------
def consistent(c):
    o, m = CFG["orders"][c[0] - 1], CFG["maxes"][c[1] - 1]
    return all(m[b - 1] for b in o)


def pool_of(rec, e, multibook=None):
    T = rec.T
    if len(T.verses(2)) > 40:
        return None
    key = ("pool", e, multibook)
    if key not in T.__dict__:
        T.__dict__[key] = T.ranges(e, multibook)
    return T.__dict__[key]


def a_range(ctx, e, multibook=None):
    p = pool_of(ctx.rec, e, multibook)
    return ctx.rng.choice(p) if p else ctx.range(zz(e), multi(e) if multibook is None else multibook)


def a_list(ctx, e, lo, hi, multibook=None):
    return ctx.some_list(zz(e), multi(e) if multibook is None else multibook, ctx.rng.randint(lo, hi), pool_of(ctx.rec, e, multibook))


def operand(ctx, e, multibook=None):
    k = ctx.rng.choice("vrl")
    return ("v", ctx.verse(zz(e))) if k == "v" else ("r", a_range(ctx, e, multibook)) if k == "r" else ("l", a_list(ctx, e, 0, 3, multibook))


def any_op(ctx, f, names=True):
    """One randomly chosen operation with random arguments, under flags argument f."""
    rec, rng, T = ctx.rec, ctx.rng, ctx.rec.T
    e = eff(rec, f)
    z = zz(e)
    b = rng.choice(T.order)
    n = len(T.mx[b])
    ch = rng.choice([0, 1, n, n + 1, rng.randint(1, n)])

    def bad_verse():
        c = rng.choice([0, 1, n, n + 1, rng.randint(1, n)])
        hi = T.mx[b][c - 1] if 1 <= c <= n else 3
        verse_new(rec, (b, c, rng.choice([0, 0, 1, hi, hi + 1])), f)

    def parts():
        x, y = ctx.verse(z), ctx.verse(z)
        a = list(x) + list(y)
        if rng.random() < .5:
            a[3] = rng.choice([a[0], -1])
        for i in (1, 2, 4, 5):
            if rng.random() < .3:
                a[i] = -1
        if a[3] == -1 and rng.random() < .5:
            a[4] = a[5] = -1
        r_parts(rec, a, f, rng.random() < .5)
    small = lambda r: len(T.verses(2)) < 300 or abs(T.pos[r[0][0]] - T.pos[r[1][0]]) <= 1
    def iter_op():
        r = a_range(ctx, rec.flags)
        if small(r):
            iterate(rec, r)
    def split_op():
        r = a_range(ctx, e)
        by = rng.choice([(0, 0), (1, 0), (0, 1), (1, 1)])
        k = rng.choice([None, None, 1, 2, 3, 7, 50, 0])
        if small(r) and not (k in (1, 2, 3) and len(T.verses(2)) > 300 and T.key(r[0])[:2] != T.key(r[1])[:2]):
            split(rec, r, by[0], by[1], k, rng.random() < .7, f)
    x = ctx.verse(z)
    sents = lambda: random_sentence(ctx, z, multi(e), rng.choice([1, 2, 3]), rng.random() < .2)
    table = [
        lambda: book_facts(rec, b, f), lambda: chap_facts(rec, b, ch, f), bad_verse, lambda: verse_facts(rec, x, f, rng.choice([-1, ch if x[0] == b else -1]), -1),
        lambda: add(rec, x, rng.choice([0, 1, 2, 5, 40, 2000]), f), lambda: sub(rec, x, rng.choice([0, 1, 2, 5, 40, 2000]), f),
        lambda: diff(rec, x, ctx.verse(z, rng.choice([None, x[0]])), f),
        lambda: cmp(rec, "verse", x, y_, V(x), V(y_)), lambda: cmp(rec, "book", b, T.order[0], BOOK[b], BOOK[T.order[0]]),
        parts, parts, lambda: r_kw(rec, x, ctx.verse(z), f),
        lambda: expand_verse(rec, x, f), lambda: expand_book(rec, b, f), lambda: expand_chap(rec, b, ch, f), lambda: expand_range(rec, a_range(ctx, e, True), f),
        lambda: shape(rec, a_range(ctx, e, True), f), lambda: expand_list(rec, a_list(ctx, e, 1, 3, True), f), lambda: whole(rec, f),
        lambda: counts(rec, a_range(ctx, e, True), f), iter_op, lambda: list_counts(rec, a_list(ctx, e, 0, 3, True), f), split_op,
        lambda: predicate(rec, rng.choice(["disjoint"]), ("r", a_range(ctx, 3)), ("r", a_range(ctx, 3)), -1) if zero(rec.flags) else None,
        lambda: predicate(rec, "contains", ("l", a_list(ctx, e, 0, 3)), operand(ctx, e), f),
        lambda: cut("contains"), lambda: cut("contains"), lambda: cut("set"), lambda: cut("update"), lambda: cut("merge"),
        lambda: adj(), lambda: adj(), lambda: adj(),
        lambda: setop(rec, rng.choice(["or", "and", "sub", "xor"]), operand(ctx, e, True), operand(ctx, e), f) if False else sets(), lambda: sets(), lambda: sets(),
        lambda: update(rec, rng.choice(["or", "and", "sub", "xor"]), ("l", a_list(ctx, e, 0, 3)), operand(ctx, e), f),
        lambda: merge(rec, ("l", a_list(ctx, e, 0, 4)), f), lambda: regroup(rec, a_list(ctx, e, 0, 4), f),
        lambda: zero_verse(rec, ctx.verse(2), rng.random() < .5), lambda: zero_range(rec, a_range(ctx, 3), rng.random() < .5),
        lambda: book_place(rec, rng.randint(1, 66), -1), lambda: book_place(rec, rng.choice([b2 for b2 in range(1, 67) if b2 not in T.pos] or [1]), -1),
    ]
    if names:
        o = rng.choice(OPTS)
        table += [
            lambda: text_verse(rec, x, o), lambda: text_range(rec, a_range(ctx, e), o, f), lambda: text_list(rec, a_list(ctx, e, 0, 4), o, f),
            lambda: rt_verse(rec, x, o, f), lambda: rt_range(rec, a_range(ctx, e), o, f), lambda: rt_list(rec, a_list(ctx, e, 1, 4), o, f),
            lambda: rt_conv(rec, a_list(ctx, e, 1, 4), o, f),
            lambda: say(ctx, sents(), f, rng.random() < .3), lambda: say(ctx, sents(), f, False, "parse.r"),
            lambda: say(ctx, [item("", random_ref(ctx, 0, True, z)[0])], f, False, "parse.v"),
            lambda: say(ctx, sents(), f, rng.random() < .3, trail=rng.choice([None, "maj", "min"])),
            lambda: a_name(ctx), lambda: a_name(ctx)]
    y_ = ctx.verse(z)

    def cut(what):
        gs, r = ctx.pieces(z, multi(e), pool_of(rec, e))
        o = rng.choice(["or", "and", "sub", "xor"])
        if what == "contains":
            predicate(rec, "contains", ("l", gs), ("r", r), f)
        elif what == "set":
            setop(rec, o, ("l", gs), ("r", r), f)
        elif what == "update":
            update(rec, o, ("l", gs), ("r", r), f)
        else:
            merge(rec, ("l", gs), f)

    def sets():
        a, c = operand(ctx, e), operand(ctx, e)
        if a[0] == "v":
            a = ("r", (a[1], a[1]))
        setop(rec, rng.choice(["or", "and", "sub", "xor"]), a, c, f)

    def adj():
        p = a_range(ctx, e)
        q = ctx.near(z, p, multi(e)) if rng.random() < .7 else a_range(ctx, e)
        predicate(rec, "adjacent", ("r", p), ("r", q) if rng.random() < .6 else ("l", ctx.groups([q] + [a_range(ctx, e) for _ in range(rng.randint(0, 2))])), f)
    rng.choice(table)()


def a_name(ctx):
    """A name of a book under one of the name tables."""
    rng = ctx.rng
    n = rng.choice((1, 2, ctx.rec.cfg[3], rng.randint(1, 5)))
    b = rng.choice(sorted(accepted(n)))
    x = rng.choice(accepted(n)[b])
    name(ctx.rec, rng.choice([x, x.upper(), " " + x, x + " "]))


def C18(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in [DEFAULT, LONG] + MINIS:
        for g in ALLF:
            for f in ARGS:
                rec.reset(named(c, g), g)
                for _ in range(ctx.scale(60, 1500) if c in MINIS else ctx.scale(40, 700)):
                    any_op(ctx, f)
                rec.see()
        # histories of changes of the global flags
        for _ in range(ctx.scale(6, 150)):
            rec.reset(c, rng.choice(ALLF))
            for _ in range(25):
                if rng.random() < .5:
                    rec.set_flags(rng.choice(ALLF))
                any_op(ctx, rng.choice([-1, -1, -1, 0, 1, 2, 3]))
                rec.see()


def C19(ctx):
    rec, rng = ctx.rec, ctx.rng
    for j, line in enumerate(open(ctx.behaviours)):
        if not ctx.mine(j):
            continue
        rec.reset(DEFAULT, 0, SEPS)
        for st in json.loads(line):
            if st["k"] == "end":
                break
            if st["k"] == "flags":
                rec.set_flags(int(st["v"]))
            elif st["k"] == "part":
                rec.set_part(st["w"], int(st["v"]))
            else:
                rec.set_sep(st["w"], re.sub("<(....)>", lambda m: chr(int(m[1], 16)), st["v"]))
            if st["ok"]:
                for _ in range(rng.choice([0, 2, 4, 6])):
                    any_op(ctx, ctx.arg(rng.choice(ALLF)))
            if rng.random() < .3:
                rec.see()
        rec.set_flags(0)
        for w, n in zip("omzn", DEFAULT):
            rec.set_part(w, n)
        for w, s in zip(SEP_KEYS, SEPS):
            rec.set_sep(w, s)
        rec.see()
        for _ in range(10):
            any_op(ctx, ctx.arg(rng.choice(ALLF)))


# --- refused calls -------------------------------------------------------------------------------------------
NOREF = [None, 5, -1, 0, 1.5, True, "x", "Matt 2:4", b"ab", BOOK[40], BibleFlag.ALL, BibleRange, object()]
NOOPERAND = NOREF + ["", (), {}, [], [5], range(0), set()]
NOITEM = NOREF + ["", (), {}, [], [5]]
NOINDEX = [1.5, "0", "", slice(0, 1), slice(None), object(), (0,), [0], 1j]
BADSEP = ["", None, "\\", '"', "\n"]
NOTEXT = ["", " ", "x", "Matt 2:", "Matt 2:3-", "Matt 99", "Matt 2:99", "2:3", "Matt 2:3 Mark", "Matt 2:3;;4", "-", "Matt 2::3", "Genx 1", "Matt 2:3-:4"]


def some_objects(ctx):
    e = 3
    v = V(ctx.verse(2))
    r = R(a_range(ctx, e))
    l = L(a_list(ctx, e, 1, 5))
    return v, r, l


def with_bad(rng, good, bad):
    """Items with a bad one somewhere, as a list, a tuple or an iterator."""
    xs = list(good)
    xs.insert(rng.randint(0, len(xs)), bad)
    return rng.choice([lambda: xs, lambda: tuple(xs), lambda: iter(xs), lambda: (x for x in xs)])


def booming(good):
    def go():
        for x in good:
            yield x
        raise Boom()
    return go


def refuse_one(ctx):
    """One call that has to be refused."""
    rec, rng = ctx.rec, ctx.rng
    v, r, l = some_objects(ctx)
    bad = rng.choice(NOREF)
    f = rng.choice(ARGS)
    rl = rng.choice([r, l, l, BibleRangeList()])

    def operand():
        bad = rng.choice(NOOPERAND + [[r], (r,), [r, r], iter([r]), l.groups[0], l.groups, GroupedList([]), GroupedList([r]), GroupedList([[r], [r]])])
        m = rng.choice(["is_disjoint", "contains", "union", "intersection", "difference", "sym_difference", "in", "|", "&", "-", "^"]
                       + (["is_adjacent", "surrounds"] if rl is r else []))
        fn = {"in": lambda: bad in rl, "|": lambda: rl | bad, "&": lambda: rl & bad, "-": lambda: rl - bad, "^": lambda: rl ^ bad}.get(m)
        if fn is None:
            k = {} if m in ("is_disjoint", "surrounds") or (m == "contains" and rl is r) else kw(f)
            fn = lambda: getattr(rl, m)(bad, **k)
        refused(rec, "operand", fn, rl)

    l0 = l

    def updating():
        def iop(o):
            x = l
            if o == "|": x |= bad
            elif o == "&": x &= bad
            elif o == "-": x -= bad
            else: x ^= bad
            return x
        bad = rng.choice(NOOPERAND + [[r], (r,), l0.groups[0], GroupedList([]), GroupedList([r])])
        l = rng.choice([l0, l0, l0, BibleRangeList()])
        m = rng.choice(["union", "intersection", "difference", "sym_difference", "|", "&", "-", "^"])
        refused(rec, "operand", (lambda: iop(m)) if len(m) == 1 else (lambda: getattr(l, m + "_update")(bad, **kw(f))), l)

    def order():
        a, b = rng.sample([v, r, l, BOOK[rng.randint(1, 66)], bad], 2)
        if all(x is bad for x in (a, b)) or (isinstance(a, BibleBook) and isinstance(b, BibleBook)) or a is bad:
            a, b = v, bad
        if isinstance(a, BibleBook) and b is bad:
            b = None
        o = rng.choice("<>{}")
        refused(rec, "order", {"<": lambda: a < b, ">": lambda: a > b, "{": lambda: a <= b, "}": lambda: a >= b}[o], a, b)

    def equal():
        a, b = rng.sample([v, r, l, BOOK[rng.randint(1, 66)]], 2)
        if rng.random() < .5:
            b = rng.choice([None, 5, "x", str(a), object()])
        if rng.random() < .3:
            a, b = b, a
        unequal(rec, a, b)

    def arith():
        x = rng.choice([None, 1.5, "1", "x", b"1", BOOK[40], r, l, object(), (1,), 1j])
        refused(rec, "arith", rng.choice([lambda: v.add(x, **kw(f)), lambda: v.subtract(x, **kw(f)), lambda: v + x, lambda: v - x]), v)

    def adding():
        y = V(ctx.verse(2))
        refused(rec, "arith", rng.choice([lambda: v.add(y, **kw(f)), lambda: v + y]), v, y)

    def item():
        x = rng.choice(NOITEM + [v, l])
        i = rng.choice([0, len(l) - 1, -1, rng.randrange(len(l))])
        g = rng.randrange(len(l.groups))
        gi = rng.randrange(len(l.groups[g]))
        def view(): l.groups[g][gi] = x
        def setit(): l[i] = x
        refused(rec, "item", rng.choice([lambda: l.append(x), lambda: l.prepend(x), lambda: l.insert(i, x), setit, view,
                                         lambda: l.remove(x), lambda: l.index(x), lambda: l.count(x)]), l, *[o for o in (v,) if o is x])

    def items():
        good = [R(a_range(ctx, 3)) for _ in range(rng.randint(0, 4))]
        x = rng.choice(NOREF + [v, [r], [5], ()])
        mk = with_bad(rng, good, x)
        def iadd():
            y = l
            y += mk()
        refused(rec, "item", rng.choice([lambda: l.extend(mk()), lambda: l.append_group(mk()), iadd]), l, *good)

    def building():
        good = [R(a_range(ctx, 3)) for _ in range(rng.randint(0, 3))]
        x = rng.choice(NOREF + [v, [r, 5], [[r]], [None]])
        mk = with_bad(rng, good, x)
        refused(rec, "item", lambda: BibleRangeList(mk()), *good)

    def boom():
        good = [R(a_range(ctx, 3)) for _ in range(rng.randint(0, 4))]
        mk = booming(good)
        def iadd():
            y = l
            y += mk()
        refused(rec, "caller", rng.choice([lambda: l.extend(mk()), lambda: l.append_group(mk()), iadd, lambda: BibleRangeList(mk())]), l, *good)

    def index():
        i = rng.choice(NOINDEX)
        g = rng.randrange(len(l.groups))
        def setit(): l[i] = r
        def delit(): del l[i]
        def vset(): l.groups[g][i] = r
        def vdel(): del l.groups[g][i]
        refused(rec, "index", rng.choice([lambda: l[i], setit, delit, lambda: l.insert(i, r), lambda: l.pop(i), lambda: l.insert_group_at(i),
                                          lambda: l.groups[i], lambda: l.groups[g][i], vset, vdel]), l, r)

    def new():
        b = rng.choice(ctx.rec.T.order)
        B = BOOK[b]
        k = kw(f)
        x = rng.choice([None, 1.5, "1x", [1], object(), r])
        refused(rec, "new", rng.choice([
            lambda: BibleVerse(**k), lambda: BibleVerse(B, **k), lambda: BibleVerse(B, 1, **k), lambda: BibleVerse(B, 1, 1, 1, **k), lambda: BibleVerse(x if x != "1x" else 5, **k),
            lambda: BibleVerse(B, x, 1, **k), lambda: BibleVerse(B, 1, x, **k), lambda: BibleVerse(x, 1, 1, **k), lambda: BibleVerse(b, 1, 1, **k), lambda: BibleVerse(l, **k),
            lambda: BibleRange(**k), lambda: BibleRange(1, 1, 1, **k), lambda: BibleRange(v, **k), lambda: BibleRange(l, **k), lambda: BibleRange(None, 1, **k),
            lambda: BibleRange(B, 1, 1, B, 1, 1, 1, **k), lambda: BibleRange(start=v, **k), lambda: BibleRange(end=v, **k), lambda: BibleRange(start=v, end=r, **k),
            lambda: BibleRange(start=r, end=r, **k), lambda: BibleRange(start=5, end=7, **k), lambda: BibleRange(start=B, end=B, **k), lambda: BibleRange(start=v, end="x", **k),
            lambda: BibleRange(v, v, **k), lambda: BibleRange(5, **k), lambda: BibleRange(B, 1, 1, 5, **k)]), v, r, l)

    def number():
        """What is no number where a chapter, a verse or a count belongs (ranges also take numbers written as text)."""
        b = rng.choice(ctx.rec.T.order)
        B = BOOK[b]
        k = kw(f)
        x = rng.choice([1.5, 1.0, 2.0, b"1", [1], (1,), object(), B, v, "1x", "", " ", "one", "1.0", 1j])
        parts = [B, 1, 1, None, 1, 1][:rng.randint(2, 6)]
        if len(parts) > 3 and rng.random() < .5:
            parts[3] = B
        at = [i for i in range(1, len(parts)) if i != 3]
        parts[rng.choice(at)] = x
        y = x if not isinstance(x, str) else rng.choice(["1", "", "1x"])
        refused(rec, "number", rng.choice([
            lambda: BibleRange(*parts, **k), lambda: BibleRange(*parts, **k), lambda: BibleRange(*parts, **k), lambda: BibleVerse(B, y, 1, **k), lambda: BibleVerse(B, 1, y, **k),
            lambda: B.max_verse_num(y), lambda: B.first_verse(y, **k), lambda: B.last_verse(y), lambda: B.chap_range(y, **k),
            lambda: v.first_verse(y, **k), lambda: v.last_verse(y), lambda: r.split(num_verses=y, **k),
            lambda: r.split(by_chap=True, num_verses=y, **k)]), v, r, f=f)

    def parsing():
        t = rng.choice(NOTEXT)
        if safe(t):
            refused(rec, "parse", lambda: BibleRangeList(t, **kw(f)), f=f)
    # weighted by what can go wrong
    rng.choice([operand, operand, updating, updating, order, equal, arith, adding, item, item, items, items, building, boom, index, index, new, new, number, number])()
    if rec.cfg == list(DEFAULT) and rec.seps == SEPS and rng.random() < .1:
        parsing()


def bad_names(rng):
    """Names of which one entry, not necessarily the first, cannot be used."""
    d = {b: list(x) for b, x in bible_data().name_data.items()}
    if rng.random() < .3:
        return rng.choice([None, 5, True])
    if rng.random() < .5:
        for b in d:
            d[b] = ["X" + x if isinstance(x, str) else x for x in d[b][:2]] + d[b][2:]
    d[rng.choice(list(d))] = rng.choice([[], ["x"], ["x", "x y"], ["x", "x y", 1], None, 5, ["x", 5, 1, []], ["x", "y", "1", []],
                                         ["x", "y", 1, [None]], ["x", "y", 1, 7], ["x", None, 1, []]])
    return d


def refuse_setting(ctx):
    rng = ctx.rng
    if rng.random() < .3:
        w = rng.choice(["name_data", "name_data", "max_verses", "verse_0s"])
        bad_setting(ctx.rec, w, bad_names(rng) if w == "name_data" else rng.choice([None, 5, 1.5]))
    elif rng.random() < .6:
        bad_setting(ctx.rec, SEP_ATTR[rng.choice(SEP_KEYS)], rng.choice(BADSEP))
    else:
        o = list(bible_data().book_order)
        k = rng.random()
        if k < .3:
            o = o[:]
            rng.shuffle(o)
            o.insert(rng.randint(1, len(o)), o[0])
        elif k < .7:
            rng.shuffle(o)
            o[rng.randrange(len(o))] = rng.choice(["Gen", 5, None, "Matt"])
        else:
            o = rng.choice([None, 5, [None], ["Gen"], [BOOK[1], BOOK[1]]])
        bad_setting(ctx.rec, "book_order", o)


def C24(ctx):
    rec, rng = ctx.rec, ctx.rng
    for c in [DEFAULT, LONG] + MINIS + [(5, 1, 1, 2)]:
        for g in ALLF:
            rec.reset(named(c, g), g)
            for _ in range(ctx.scale(120, 3000)):
                for _ in range(rng.choice([1, 1, 2])):
                    refuse_one(ctx)
                if rng.random() < .25:
                    refuse_setting(ctx)
                    rec.see()
                if rng.random() < .2:
                    any_op(ctx, rng.choice(ARGS), names=c != (5, 1, 1, 2))
            rec.see()
