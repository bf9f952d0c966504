"""Walks of spec/TreeWalk.tla (random walks of the tree algorithm, printed by TLC when they did something structurally
new) turned into programs: the operations of the walk, with the questions a property asks around them. Marked steps are
the new ones, the questions there are thorough."""
import bisect
import json
import os
import random
import re

import gen

AUGS = {
    "C01": ("unit", "unit", "count"), "C02": ("unit",), "C03": ("unit", "unit", "tracked"), "C04": ("unit", "count", "hash", "group", "ksum"),
    "C05": ("count", "hash", "hash", "khash", "ksum", "vsum", "max", "group", "groups"), "C06": ("count",), "C07": ("group", "groups"),
    "C08": ("unit", "unit", "count"), "C09": ("unit", "count", "tracked", "tracked"), "C10": ("unit", "count", "hash", "group", "tracked"),
    "C11": ("unit",), "C12": ("unit", "count", "hash", "ksum"), "C13": ("unit",), "C14": ("unit", "unit", "count"),
    "C15": ("unit", "count", "hash", "khash", "ksum", "vsum", "max", "group", "groups"), "C16": ("unit", "count"),
    "C17": ("unit", "count", "hash", "group", "ksum", "vsum", "max"), "C18": ("hash", "khash", "ksum", "vsum", "max"),
    "C19": ("unit", "count", "tracked", "tracked"), "C20": ("unit", "count", "tracked"),
}
KINDS = {
    "C01": ("map", "tree", "set"), "C02": ("map", "tree", "set"), "C03": ("tree",), "C08": ("tree",), "C09": ("tree", "tree", "set", "map"),
    "C10": ("tree",), "C13": ("set",), "C14": ("tree", "tree", "map", "set"), "C15": ("map", "tree", "tree", "set"),
    "C16": ("map", "tree", "tree", "set"), "C17": ("map", "tree", "tree", "set"),
    "C19": ("map", "tree", "tree", "set"), "C20": ("map", "tree"),
}


class Walker:
    def __init__(self, prop, walk, seed):
        r = self.r = random.Random(f"{prop}/{seed}/{walk['id']}")
        self.prop, self.walk = prop, walk
        n, u = walk["n"], walk["u"]
        kind = self.kind = r.choice(KINDS.get(prop, ("map", "tree", "tree")))
        aug = "unit" if kind == "set" else r.choice(AUGS[prop])
        key = {"group": "p", "groups": "p", "tracked": "t"}.get(aug)
        if key is None:
            if prop in ("C09", "C16", "C19", "C20"):
                key = "t"
            elif prop == "C14":
                key = "y"
            elif aug == "unit":
                key = {"C01": ("i", "s"), "C02": ("i", "s"), "C03": ("i", "t"), "C08": ("i", "s"), "C13": ("i", "s", "t"), "C15": ("i", "s"),
                       "C10": ("i",)}.get(prop, ("i",))
                key = r.choice(key)
            else:
                key = "i"
        val = key if key in ("t", "s") and aug != "count" or key == "t" else "i"
        self.p = gen.Prog(r, n, u, key, val, aug)
        self.h = 0
        self.long = None        # a cursor kept for long

    # ---- the steps themselves
    def do(self, op, h=None):
        p, h = self.p, self.h if h is None else h
        if op[0] == "bulk":
            n = op[1]
            if n == 0:
                p.new(h, self.kind)
            else:
                p.bulk(h, self.kind, [(i * p.u // n, p.value()) for i in range(1, n + 1)])
        elif op[0] == "insert":
            p.put(h, op[1])
        elif op[0] == "del":
            if self.prop in ("C05", "C06", "C07", "C18", "C15", "C17", "C04", "C09") and op[1] in p.m[h]:
                gen.take_any(p)(h, op[1])
            else:
                p.rm(h, op[1])
        elif op[0] == "get":
            p.emit("member" if self.kind == "set" else "get", h, op[1])
        elif op[0] == "getmut":
            if self.kind == "set" or p.aug in ("hash", "vsum", "max"):
                p.emit("member", h, op[1])
            else:
                p.getmut(h, op[1])

    def near(self, k, d=2):
        return range(max(1, k - d), min(self.p.u, k + d) + 1)

    def clampk(self, k):
        return min(self.p.u, max(1, k))

    def run(self):
        pre = getattr(self, "pre_" + self.prop, lambda *a: None)
        post = getattr(self, "post_" + self.prop, lambda *a: None)
        marks = set(self.walk["marks"])
        for i, op in enumerate(self.walk["ops"], 1):
            k = op[1] if op[0] != "bulk" else self.p.u // 2
            mark = i in marks
            if op[0] != "bulk":
                pre(op, k, mark)
            self.do(op)
            post(op, max(1, k), mark or op[0] == "bulk")
        getattr(self, "final_" + self.prop, lambda: None)()
        self.p.end()
        return self.p

    # ---- questions
    def post_C01(self, op, k, mark):
        p, r, h = self.p, self.r, self.h
        if mark:
            get = "member" if self.kind == "set" else "get"
            for j in self.near(k, 3):
                p.emit(get, h, j)
            for o in ("len", "isempty", "collect") + {"tree": ("least", "greatest"), "set": ("sleast", "sgreatest"), "map": ()}[self.kind]:
                p.emit(o, h)
        elif r.random() < 0.3:
            gen.simple_read(p, h, False)

    def post_C02(self, op, k, mark):
        p, r = self.p, self.r
        if mark:
            p.emit("collect", 0)
            p.emit("collectrev", 0)
            p.open_iter(0, 0)
            p.consume(0, (1, 2), steps=r.choice((3, 10, 40)))

    def post_C03(self, op, k, mark):
        p, r = self.p, self.r
        if mark:
            p.clone(1, 0)
            p.into(1, 0)
            p.consume(0, ())

    def final_C03(self):
        self.p.into(0, 0)
        self.p.consume(0, ())

    def post_C04(self, op, k, mark):
        p, r = self.p, self.r
        if mark:
            for o in ("collect", "collectrev", "len") + (("root",) if self.kind != "set" else ()):
                p.emit(o, 0)
        if mark or r.random() < 0.3:
            gen.simple_read(p, 0)

    def final_C04(self):
        gen.drain(self.p, 0, None, gen.take_any(self.p))
        self.post_C04(None, 1, True)

    def post_C05(self, op, k, mark):
        self.p.emit("root", 0)
        if mark:
            self.p.emit("shape", 0)

    def post_C06(self, op, k, mark):
        p, r = self.p, self.r
        i = bisect.bisect_left(p.keys[0], k)
        if mark:
            for j in sorted({0, i - 3, i - 2, i - 1, i, i + 1, i + 2, i + 3, p.size(0) - 1, p.size(0)}):
                if j >= 0:
                    p.emit("at", 0, j)
            for j in self.near(k, 2):
                p.emit("rank", 0, j)
            p.emit("root", 0)
            j, v = max(0, i + r.randint(-2, 2)), p.value()
            p.emit("atmut", 0, j, v)
            f = p.nth(0, j)
            if f is not None:
                p.m[0][f] = v
        elif r.random() < 0.4:
            gen.aug_read(p, 0, r.choice(("at", "rank")))

    def final_C06(self):
        gen.sweep_index(self.p, 0)

    def post_C07(self, op, k, mark):
        p, r = self.p, self.r
        if mark:
            g0 = p.grp[k - 1]
            for g in sorted({g0} | {p.grp[self.clampk(k + d) - 1] for d in (-p.n, -2, 2, p.n)}):
                s = [x for x in p.keys[0] if p.grp[x - 1] == g]
                p.emit("gsize", 0, g)
                for o in sorted({0, len(s) // 2, max(0, len(s) - 1), len(s)}):
                    p.emit("gat", 0, g, o)
            for j in self.near(k, 2):
                p.emit("grank", 0, j)
            p.emit("root", 0)
        elif r.random() < 0.4:
            gen.aug_read(p, 0, r.choice(("gat", "grank", "root")))

    def final_C07(self):
        gen.sweep_groups(self.p, 0)

    def pre_C08(self, op, k, mark):
        p, r = self.p, self.r
        if mark or r.random() < 0.25:
            a, b = p.before(0, k), p.after(0, k)
            for c, j in ((0, k), (1, a or self.clampk(k - 1)), (2, b or self.clampk(k + 1)), (3, self.clampk(k + r.choice((-1, 1)) * p.n))):
                p.emit("cget", 0, c, j)
                p.cset(c, j)
            if r.random() < 0.5 and b is not None:      # reach a neighbour by moving, which leaves another hint
                p.emit("cprev", 0, 2, 3)
                p.cset(3, p.before(0, b))
            if r.random() < 0.5 and a is not None:
                p.emit("cnext", 0, 1, 2)
                p.cset(2, p.after(0, a))
            if r.random() < 0.2 or 4 not in p.curs:
                p.emit("cget", 0, 4, j)
                p.cset(4, j)
            p.probe = True
        else:
            p.probe = r.random() < 0.2

    def post_C08(self, op, k, mark):
        p, r = self.p, self.r
        if getattr(p, "probe", False):
            for c in sorted(p.curs):
                if c == 5 or c not in p.curs:
                    continue
                p.emit("cval", 0, c)
                p.emit(r.choice(("cnext", "cnextp")), 0, c, 5)
                p.emit(r.choice(("cprev", "cprevp")), 0, c, 5)
                p.cset(5, p.before(0, p.curs[c]))
                if 5 in p.curs and r.random() < 0.5:
                    p.emit("cnext", 0, 5, 5)
                    p.cset(5, p.after(0, p.curs[5]))
                if r.random() < 0.3:
                    p.emit("cexists", 0, c)

    def post_C09(self, op, k, mark):
        p, r = self.p, self.r
        if mark and r.random() < 0.4 and self.kind == "tree":
            p.clone(1, 0)
            if r.random() < 0.5:
                p.into(1, 0)
                p.consume(0, (), steps=r.randint(0, 12))
            else:
                if r.random() < 0.5:
                    p.clear(1)
                p.drop(1)

    def final_C09(self):
        p, r = self.p, self.r
        if self.kind != "map" and r.random() < 0.5:
            p.into(0, 0)
            p.consume(0, (), steps=r.randint(0, 20))

    def pre_C10(self, op, k, mark):
        p, r = self.p, self.r
        if mark:
            self.copy = 1 - self.h
            if self.copy in p.kind:
                p.drop(self.copy)
            for j in self.near(k, 1):
                p.emit("get", self.h, j)
            p.clone(self.copy, self.h)

    def post_C10(self, op, k, mark):
        p, r = self.p, self.r
        if getattr(self, "copy", None) is None or op[0] == "bulk":
            return
        c = self.copy
        if mark:
            for g in (c, self.h):
                for o in ("collect", "len", "root"):
                    p.emit(o, g)
                for j in self.near(k, 1):
                    p.emit("get", g, j)
            self.do(op, c)
            for g in (c, self.h):
                p.emit("collect", g)
                gen.simple_read(p, g)
            if r.random() < 0.3:
                self.h = c      # go on with the clone
        elif r.random() < 0.2:
            p.emit("get", 1 - self.h, k)
            p.emit("get", self.h, k)

    def post_C11(self, op, k, mark):
        if mark:
            self.p.emit("shape", 0)

    def post_C12(self, op, k, mark):
        p, r = self.p, self.r
        if mark:
            for _ in range(5):
                gen.visit(p, 0)
            p.emit("get", 0, k)
            p.emit("len", 0)

    def post_C13(self, op, k, mark):
        p, r = self.p, self.r
        if op[0] == "bulk":
            p.bulk(1, "set", [(j, 1) for j in range(r.randint(1, 4), p.u + 1, r.randint(1, 5))])
        if mark:
            x, y = r.choice(((0, 1), (1, 0), (0, 1), (1, 0), (0, 0)))
            p.union(x, y, 0)
            p.consume(0, (1, 2))
            if r.random() < 0.5:
                gen.mutate(p, 1, r.randint(1, p.n))

    def reads_around(self, k, count):
        p, r = self.p, self.r
        ks = [self.clampk(k + d) for d in (-p.n, -p.n // 2, -1, 0, 1, p.n // 2, p.n)]
        out = []
        for _ in range(count):
            j = r.choice(ks)
            x = r.random()
            if x < 0.6:
                out.append(("member" if self.kind == "set" else "get", 0, j))
            elif x < 0.75 and p.aug == "count":
                out.append(("rank", 0, j))
            elif x < 0.8:
                out.append(("len", 0))
            elif x < 0.9:
                out.append(("collect", 0))
            else:
                out.append(("member", 0, j))
        return out

    def pre_C14(self, op, k, mark):
        p, r = self.p, self.r
        if mark:
            threads = r.choice((2, 3))
            per = r.choice((2, 4, 6))
            keep, body = p.lines, []
            for t in range(threads):
                for o in self.reads_around(k, per):
                    body.append(f"{t} " + " ".join(map(str, o)))
                if self.kind == "tree":
                    c = 2 * t
                    body.append(f"{t} cget 0 {c} {k}")
                    body.append(f"{t} cnext 0 {c} {c + 1}")
                    body.append(f"{t} cprev 0 {c} {c + 1}")
                    body.append(f"{t} cval 0 {c}")
                    p.cset(c, k)
                    p.cset(c + 1, p.before(0, k))
            order = [r.randrange(threads) for _ in range(r.choice((0, 20, 60)))]
            p.lines = keep + [" ".join(["par"] + [str(x) for x in order])] + body + ["endpar"]
        elif r.random() < 0.5:
            for o in self.reads_around(k, r.choice((1, 2, 3))):
                p.emit(*o)

    def post_C14(self, op, k, mark):
        p = self.p
        for o in self.reads_around(k, 4 if mark else 1):
            p.emit(*o)
        if self.kind == "tree" and mark:
            for c in sorted(c for c in p.curs if c < 5):
                p.emit("cval", 0, c)
                p.emit("cnext", 0, c, 5)
            p.curs.pop(5, None)

    def post_C15(self, op, k, mark):
        p, r = self.p, self.r
        if mark:
            for _ in range(3):
                gen.anything_read(p, 0)
            if self.kind != "set":
                gen.visit(p, 0)
            p.open_iter(0, 0)
            p.consume(0, (1, 2), steps=r.randint(0, 9))
        elif r.random() < 0.3:
            gen.simple_read(p, 0)
            if self.kind == "tree":
                p.cursor_op(0)

    def final_C15(self):
        gen.drain(self.p, 0, lambda k: gen.anything_read(self.p, 0), gen.take_any(self.p))

    def pre_C16(self, op, k, mark):
        p, r = self.p, self.r
        if not mark and r.random() > 0.1:
            return
        # the call of the step panics at every comparison in turn; it may get through, then the step below repeats it
        for j in range(1, 12):
            p.fusing = j
            if op[0] == "insert":
                p.emit(*(("sinsert", 0, k) if self.kind == "set" else ("insert", 0, k, p.value())))
            elif op[0] == "del":
                p.emit("sdel" if self.kind == "set" else "del", 0, k)
            elif self.kind == "tree" and r.random() < 0.5 and p.curs:
                c = r.choice(sorted(p.curs))
                p.emit(r.choice(("cval", "cexists")), 0, c)
            elif p.aug == "count" and r.random() < 0.5:
                p.emit("rank", 0, k)
            elif op[0] == "getmut" and self.kind != "set":
                p.emit("getmut", 0, k, p.value())
            else:
                p.emit("member", 0, k)
            p.fusing = 0
            if r.random() < 0.2:
                p.emit("member", 0, self.clampk(k + r.randint(-2, 2)))
        p.emit("len", 0)
        p.emit("collect", 0)
        if self.kind == "tree" and r.random() < 0.5:
            c = r.randint(0, 3)
            p.emit("cget", 0, c, k)
            p.cset(c, k)

    def post_C16(self, op, k, mark):
        p = self.p
        if mark:
            p.emit("collect", 0)
            p.emit("len", 0)
            for j in self.near(k, 1):
                p.emit("member", 0, j)

    def pre_C19(self, op, k, mark):
        p, r = self.p, self.r
        if not mark and r.random() > 0.15:
            return
        # the first clone made by the call of the step panics; it may make none, then the step below repeats it
        p.fuse = "fusec"
        p.fusing = 1
        if op[0] == "insert":
            p.emit(*(("sinsert", 0, k) if self.kind == "set" else ("insert", 0, k, p.value())))
        elif op[0] == "del":
            p.emit("sdel" if self.kind == "set" else "del", 0, k)
        elif self.kind == "tree" and r.random() < 0.5 and p.curs:
            c = r.choice(sorted(p.curs))
            p.emit(r.choice(("cnext", "cprev")), 0, c, 5)
            p.curs.pop(5, None)
        elif self.kind == "tree":
            p.fusing = r.randint(1, 3 * p.size(0) + 3)
            p.emit("clone", 3, 0)
        p.fusing = 0
        p.emit("scrap", 3)
        p.emit("len", 0)
        p.emit("collect", 0)
        if self.kind == "tree" and r.random() < 0.5:
            c = r.randint(0, 3)
            p.emit("cget", 0, c, k)
            p.cset(c, k)

    def post_C19(self, op, k, mark):
        self.post_C16(op, k, mark)

    def post_C20(self, op, k, mark):
        p, r = self.p, self.r
        if not p.wild:
            gen.lying(p, r.choice((1, 2, 5, 20)))
        if mark or r.random() < 0.2:
            gen.lying_reads(p, 0, self.kind, 4)
            p.emit("collect", 0)
            p.emit("len", 0)
            p.emit("shape", 0)

    def post_C17(self, op, k, mark):
        if self.r.random() < 0.1:
            gen.simple_read(self.p, 0)
        if self.kind == "tree" and self.r.random() < 0.1:
            self.p.cursor_op(0)

    def final_C17(self):
        p, r = self.p, self.r
        if self.kind != "map" and r.random() < 0.5:
            p.clear(0)
        else:
            gen.drain(p, 0, None, gen.take_any(p))
        gen.empty_reads(p, 0)
        for op in self.walk["ops"][1:]:
            self.do(op)
            if r.random() < 0.25:
                gen.simple_read(p, 0)
        p.emit("collect", 0)
        gen.drain(p, 0, None, p.rm)
        gen.empty_reads(p, 0)

    def post_C18(self, op, k, mark):
        p, r = self.p, self.r
        if mark:
            t = p.total(0)
            if p.aug == "max":
                qs = {p.m[0].get(j, 1) + d for j in self.near(k, 3) for d in (0, 1)}
            elif p.aug in ("ksum", "vsum"):
                w = sum(p.weight(0, j) for j in p.keys[0] if j < k)
                qs = {w + d for d in range(-6, 7)} | {t - 1, t}
            else:
                i = bisect.bisect_left(p.keys[0], k)
                qs = {i + d for d in (-2, -1, 0, 1, 2)} | {t - 1, t}
            for q in sorted(qs):
                if q >= 0:
                    p.emit("find", 0, q)
            if p.aug in ("khash", "ksum"):
                for j in self.near(k, 2):
                    p.emit("foldrank", 0, j)
            p.emit("root", 0)
        elif r.random() < 0.3:
            gen.aug_read(p, 0, "find")


def program(prop, walk, seed):
    return Walker(prop, walk, seed).run()


def parse(out, n, u, tag):
    """walks printed by TLC"""
    res = []
    for m in re.finditer(r'^"WALK (.*)"$', out, re.M):
        d = json.loads(json.loads('"' + m.group(1) + '"'))
        res.append(dict(id=f"{tag}{len(res)}", n=n, u=u, ops=d["ops"][:max(d["marks"] + [0])], marks=d["marks"]))
    return res
