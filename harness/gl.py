"""Histories of grouped lists (spec/GLTrace.tla): a session drives one list and records every operation."""
import copy, functools, pickle, signal, time
from fractions import Fraction
from core import *
import core
from bibleref.util import GroupedList, GroupViewError


class Boom(Exception):
    pass


# Equal numbers of different kinds; the identity of a number is its kind.
NUMBERS = [int, float, Fraction]


@functools.total_ordering
class K:
    """A value with a key, by which it is compared, and an identity."""
    __slots__ = ("key", "uid")

    def __init__(self, key, uid):
        self.key, self.uid = key, uid

    left = None                     # comparisons that are left until one raises
    boomed = False

    def tick(self):
        if K.left is not None:
            K.left -= 1
            if K.left < 0:
                K.boomed = True
                raise Boom()

    def __eq__(self, o):
        self.tick()
        return self.key == o.key if isinstance(o, K) else NotImplemented

    def __lt__(self, o):
        self.tick()
        return self.key < o.key if isinstance(o, K) else NotImplemented

    def __hash__(self): return hash(self.key)
    def __repr__(self): return "K%d.%d" % (self.key, self.uid)


# Ranges of the default Bible in ascending order; the n-th has key n.  (The 4th and 5th are converted into each other.)
POOL = [((1, 1, 1), (1, 1, 3)), ((1, 1, 2), (1, 1, 2)), ((1, 2, 1), (1, 3, 4)), ((19, 3, 0), (19, 3, 4)), ((19, 3, 1), (19, 3, 4)),
        ((40, 1, 1), (40, 1, 25)), ((40, 1, 1), (40, 2, 1)), ((43, 3, 16), (43, 3, 16)), ((65, 1, 1), (65, 1, 25)),
        ((66, 22, 21), (66, 22, 21))]
RKEY = {r: i + 1 for i, r in enumerate(POOL)}


class Broken(Exception):
    pass


class Session:
    def __init__(self, rec, kind):
        """kind: 'K' (GroupedList of keyed values), 'N' (of numbers of several kinds) or 'R' (BibleRangeList)."""
        self.rec, self.kind = rec, kind
        self.cls = GroupedList if kind != "R" else BibleRangeList
        self.way = 0
        self.uid = 0
        self.restart()

    def restart(self):
        self.l = self.cls()
        self.views, self.orig, self.origref = [], [], None
        self.dead = False
        self.uid = 0
        self.rec._emit({"o": "@reset"})

    # -- values
    def val(self, v):
        """The value for a number; equal keys get new identities."""
        k = v // 1000
        if self.kind == "K":
            if v % 1000 == 0:
                self.uid = self.uid % 999 + 1
                return K(k, self.uid)
            return K(k, v % 1000)
        if self.kind == "N":
            self.uid += 1
            return NUMBERS[(v % 1000 or 1 + self.uid % 3) - 1](k)
        return R(POOL[k - 1])

    def code(self, x):
        if self.kind == "K":
            if not isinstance(x, K):
                raise Broken("foreign value")
            return x.key * 1000 + x.uid
        if self.kind == "N":
            if type(x) not in NUMBERS or x != int(x):
                raise Broken("foreign value")
            return int(x) * 1000 + NUMBERS.index(type(x)) + 1
        r = enc_range(x)
        return 1000 * RKEY.get((tuple(r[0]), tuple(r[1])), 0)

    def codes(self, it, cap):
        out = []
        for x in it:
            out.append(self.code(x))
            if len(out) > cap:
                raise Broken("does not end")
        return out

    # -- observation
    def groups_of(self, l):
        """(groups, consistent)"""
        try:
            n = len(l)
            cap = n + 3
            flat = self.codes(l, cap)
            gs = []
            for v in l.groups:
                gs.append(self.codes(v, cap))
                if len(gs) > cap:
                    raise Broken("groups do not end")
            ok = (len(flat) == n and [x for g in gs for x in g] == flat and len(l.groups) == len(gs)
                  and self.codes(reversed(l), cap) == flat[::-1])
            if n <= 12:
                ok = ok and [self.code(l[i]) for i in range(n)] == flat and [self.code(l[-i - 1]) for i in range(n)] == flat[::-1] \
                    and [self.codes(l.groups[i], cap) for i in range(len(gs))] == gs \
                    and [self.codes(l.groups[-i - 1], cap) for i in range(len(gs))] == gs[::-1] \
                    and [[self.code(x) for x in g] for g in l.to_nested_lists()] == gs \
                    and [len(l.groups[i]) for i in range(len(gs))] == [len(g) for g in gs]
            return gs, ok
        except Exception as e:
            return [[-1]], False

    def see_view(self, v):
        if v is None:
            return []
        try:
            x = self.codes(v, len(self.l) + 3)
            y = [self.code(v[i]) for i in range(len(x))] if len(x) <= 12 else x
            return x if x == y and len(v) == len(x) else [-3]
        except GroupViewError:
            return []
        except Exception:
            return [-2]

    # -- operations
    def run(self, o, a, vs):
        """Perform one operation; returns the result, or raises."""
        l = self.l
        if o == "app": return l.append(vs[0], new_group=True) if a[0] else l.append(vs[0])
        if o == "pre": return l.prepend(vs[0], True) if a[0] else l.prepend(vs[0])
        if o == "ins": return l.insert(a[0], vs[0])
        if o == "ext": return l.extend(vs if self.rec.i % 2 else (x for x in vs))
        if o == "iadd":
            m = l
            m += vs
            if m is not l:
                raise Broken("not the same object")
            return None
        if o == "grp": return l.append_group(vs if self.rec.i % 2 else tuple(vs))
        if o == "exts": return l.extend(l)
        if o == "iadds":
            l += l
            if l is not self.l:
                raise Broken("not the same object")
            return None
        if o == "grps": return l.append_group(l)
        if o == "extv": return l.extend(self.views[a[0] - 1])
        if o == "grpv": return l.append_group(self.views[a[0] - 1])
        if o == "gat": return l.insert_group_at(a[0])
        if o == "pop": return ("val", l.pop(a[0]))
        if o == "popn": return ("val", l.pop())
        if o == "del":
            del l[a[0]]
            return None
        if o == "rem": return l.remove(vs[0])
        if o == "clr": return l.clear()
        if o == "clrg": return l.clear_groups()
        if o == "rev": return l.reverse()
        if o == "sort": return l.sort() if self.kind != "R" else l.sort(regroup=False)
        if o == "zto1": return l.verse_0_to_1()
        if o == "oneto0": return l.verse_1_to_0()
        if o == "get": return ("val", l[a[0]])
        if o == "set":
            l[a[0]] = vs[0]
            return None
        if o == "cnt": return ("num", l.count(vs[0]))
        if o == "has": return ("bool", vs[0] in l)
        if o == "idx":
            if a[1] == len(l) and a[0] % 2:
                return ("num", l.index(vs[0], a[0]))
            return ("num", l.index(vs[0], limit_index=a[1]) if a[0] == 0 else l.index(vs[0], a[0], a[1]))
        if o == "idxn": return ("num", l.index(vs[0]))
        if o == "view":
            self.views.append(l.groups[a[0]])
            return None
        if o == "vget": return ("val", self.views[a[0] - 1][a[1]])
        if o == "vset":
            self.views[a[0] - 1][a[1]] = vs[0]
            return None
        if o == "vdel":
            del self.views[a[0] - 1][a[1]]
            return None
        if o == "vall": return ("vals", list(self.views[a[0] - 1]))
        if o == "vlen": return ("num", len(self.views[a[0] - 1]))
        if o == "flat": return ("vals", list(l))
        if o == "back": return ("vals", list(reversed(l)))
        if o == "nest": return ("groups", l.to_nested_lists())
        if o == "ngrp": return ("num", len(l.groups))
        if o in ("xsort", "xrem", "xcnt", "xidx"):
            # comparing the items raises (for "sort" the sort may get by with fewer comparisons than a[0])
            K.left, K.boomed = a[0], False
            try:
                return {"xsort": lambda: l.sort(), "xrem": lambda: l.remove(vs[0]), "xcnt": lambda: ("num", l.count(vs[0])),
                        "xidx": lambda: ("num", l.index(vs[0]))}[o]()
            finally:
                K.left = None
        if o == "vcopy":
            self.way += 1
            view = self.views[a[0] - 1]
            new = self.cls(view) if self.way % 3 else self.cls([list(view)])
            self.orig, self.origref = l, True
            self.l = new
            self.views = [None] * len(self.views)
            return None
        if o in ("copy", "flatcopy"):
            self.way += 1
            ways = [lambda: self.cls(l.to_nested_lists()), lambda: copy.copy(l), lambda: copy.deepcopy(l), lambda: pickle.loads(pickle.dumps(l))] \
                + [lambda: BibleRangeList(l)] * 2 * (self.kind == "R") if o == "copy" else \
                [lambda: GroupedList(l) if self.kind != "R" else self.cls(list(l)), lambda: self.cls([x for x in l]), lambda: self.cls(iter(l))]
            new = ways[self.way % len(ways)]()
            self.orig, self.origref = l, True
            self.l = new
            self.views = [None] * len(self.views)
            return None
        if o == "oclr":
            if self.origref:
                self.orig.clear()
            return None
        if o == "type":
            bad = ["text", 7, None][a[0] % 3]
            return [lambda: l.append(bad), lambda: l.prepend(bad), lambda: l.insert(0, bad), lambda: l.extend([R(POOL[0]), bad]),
                    lambda: l.append_group([R(POOL[0]), bad]), lambda: l.__setitem__(0, bad), lambda: l.append(bad, new_group=True),
                    lambda: l.__iadd__([bad])][a[1]]()
        raise AssertionError(o)

    def possible(self, o, a):
        if o in ("extv", "grpv", "vget", "vset", "vdel", "vall", "vlen", "vcopy"):
            return len(self.views) >= a[0] and self.views[a[0] - 1] is not None
        if o == "has":
            return self.kind != "R"
        if o in ("xsort", "xrem", "xcnt", "xidx"):
            return self.kind == "K"
        if o in ("type", "zto1", "oneto0"):
            return self.kind == "R"
        return True

    def do(self, o, a=(), vs=(), look=True):
        """One operation; unless look, the list is left alone afterwards (looking could itself have an effect)."""
        if self.dead or not self.possible(o, a):
            return
        vals = [self.val(v) for v in vs]
        coded = [self.code(x) for x in vals]
        nviews = len(self.views)
        signal.setitimer(signal.ITIMER_VIRTUAL, 10)
        try:
            try:
                r = self.run(o, a, vals)
                if r is None:
                    k, v = "none", 0
                elif isinstance(r, tuple) and r[0] == "val":
                    k, v = "val", self.code(r[1])
                elif isinstance(r, tuple) and r[0] == "num":
                    k, v = "val", r[1] if plain_int(r[1]) else -99
                elif isinstance(r, tuple) and r[0] == "bool":
                    k, v = "bool", bool(r[1])
                elif isinstance(r, tuple) and r[0] == "vals":
                    k, v = "vals", self.codes(r[1], 10**6)
                elif isinstance(r, tuple) and r[0] == "groups":
                    k, v = "groups", [self.codes(g, 10**6) for g in r[1]]
                else:
                    k, v = "weird", 0
            except Hang:
                k, v = "err", "hang"
                self.dead = True
            except Exception as e:
                k, v = "err", category(e)
                if k == "err" and v.startswith("other") and not (isinstance(e, Boom) and o[0] == "x"):
                    k = "weird"
            look = look or self.dead
            g, c = ([[-1]], False) if self.dead else self.groups_of(self.l) if look else ([], True)
            w = [self.see_view(x) for x in self.views] if look and not self.dead else []
            og = self.groups_of(self.orig)[0] if self.origref and look and not self.dead else []
        except Hang:
            k, v, g, c, w, og = "err", "hang", [[-1]], False, [], []
            self.dead = look = True
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if og == [[-1]] or g == [[-1]]:
            self.dead = True
        if o[0] == "x" and not K.boomed:
            o = {"xsort": "sort", "xrem": "rem", "xcnt": "cnt", "xidx": "idxn"}[o]
        self.rec.ops[o] = self.rec.ops.get(o, 0) + 1
        self.rec._emit({"o": o, "a": list(a), "vs": coded, "k": k, "v": v, "g": g, "c": c, "w": w, "orig": og, "z": bool(look)})
        if v == "hang":
            self.rec.hangs += 1
            if self.rec.hangs >= 2:
                raise Enough()
        if time.process_time() > self.rec.deadline:
            raise Enough()

    # -- random steps
    def step(self, rng, maxlen, views=3, look=True):
        n = len(self.l)
        ng = len(self.l.groups) if look else rng.randint(0, 3)
        kv = lambda: 1000 * rng.randint(1, len(POOL) if self.kind == "R" else 4)
        ix = lambda: rng.choice([0, n, n - 1, -1, -n, -n - 1, n + 1, rng.randint(-n - 2, n + 2), rng.randint(-n, n), rng.randint(-n, n)])
        W = len(self.views)
        ops = ["app", "app", "pre", "ins", "ins", "ext", "grp", "iadd", "gat", "gat", "pop", "popn", "del", "rem", "set", "get", "cnt", "has",
               "idx", "idxn", "clrg", "rev", "sort", "copy", "flatcopy", "oclr", "type", "exts", "grps", "iadds", "flat", "back", "nest", "ngrp", "clr"]
        ops += ["zto1", "oneto0"] if self.kind == "R" else []
        ops += ["xsort", "xsort", rng.choice(["xrem", "xcnt", "xidx"])] if self.kind == "K" else []
        if views:
            ops += ["view"] * (6 if W < views else 0) + ["vget", "vget", "vset", "vset", "vdel", "vdel", "vdel", "vall", "vlen", "extv", "grpv", "vcopy"] * (1 if W else 0)
        o = rng.choice(ops)
        if o in ("clr", "exts", "grps", "iadds", "sort", "rev", "copy", "flatcopy", "vcopy", "clrg") and rng.random() < 0.6:
            o = rng.choice(["app", "grp", "gat", "ins", "del"])
        if n > maxlen and o in ("app", "pre", "ins", "ext", "grp", "iadd", "exts", "grps", "iadds", "extv", "grpv"):
            o = rng.choice(["pop", "del", "vdel"] if W else ["pop", "del"])
        a, vs = [], []
        if o in ("app", "pre"): a, vs = [int(rng.random() < .4)], [kv()]
        elif o == "ins": a, vs = [ix()], [kv()]
        elif o in ("ext", "grp", "iadd"): vs = [kv() for _ in range(rng.choice([0, 1, 1, 2, 3, 3 if rng.random() < .8 else min(8, maxlen)]))]
        elif o in ("gat", "pop", "del", "get"): a = [ix()]
        elif o in ("rem", "cnt", "has", "idxn"): vs = [kv()]
        elif o == "set": a, vs = [ix()], [kv()]
        elif o == "idx":
            if n == 0:
                return
            lo = rng.randint(0, n - 1)
            a, vs = [lo, rng.randint(lo + 1, n)], [kv()]
            if rng.random() < .3:
                a[0] -= n
            if rng.random() < .3 and a[1] < n:
                a[1] -= n
        elif o == "view": a = [rng.choice([0, -1, ng - 1, ng, -ng - 1, rng.randint(-ng, ng)])]
        elif o in ("vget", "vset", "vdel"):
            w = rng.randint(1, W)
            k, m, _ = guarded(lambda: len(self.views[w - 1]), 5.0) if look else ("int", rng.randint(1, 3), None)
            m = min(m, n) if k == "int" else 1
            a = [w, rng.choice([-1, 0, 0, 0, 1, 1, 2, 3, n, m, m, m - 1, m + 1, rng.randint(0, m)])]
            if o == "vset": vs = [kv()]
        elif o in ("vall", "vlen", "extv", "grpv", "vcopy"):
            a = [rng.randint(1, W)]
            if o in ("extv", "grpv") and n > maxlen // 2:
                return
        elif o[0] == "x":
            a = [rng.choice([0, 1, 2, n // 2, n, 2 * n, rng.randint(0, n * 3 + 1)])]
            vs = [] if o == "xsort" else [kv()]
        elif o == "type":
            a = [rng.randint(0, 2), rng.randint(0, 7)]
            if a[1] == 5 and n == 0:
                return
        self.do(o, a, vs, look)
