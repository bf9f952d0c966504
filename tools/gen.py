"""Programs: sequences of public operations, one profile per property.

A small model of the contents keeps the programs legal (a consumed handle is not used again, a borrowed
collection is not modified) and lets them aim at interesting keys. It decides nothing: results are judged
by spec/TraceCheck.tla.
"""
import bisect
import random

KINDS = {"map": 0, "set": 1, "tree": 2}


class Prog:
    def __init__(self, rng, n, u, key="i", val="i", aug="unit", groups=None, seedvals=None):
        self.rng, self.n, self.u, self.key, self.val, self.aug = rng, n, u, key, val, aug
        self.grp = [1] * u
        if aug in ("group", "groups"):
            self.grp = make_groups(rng, u, n) if groups is None else groups
        self.lines = []
        self.kind, self.m, self.keys = {}, {}, {}
        self.curs, self.its = {}, {}
        self.fresh = 1
        self.recent = []
        self.fusing, self.fuse = 0, "fuse"
        self.wild = ""      # seed of an ordering that lies, and how often it does

    # ---- text
    def header(self):
        g = " grp=" + ",".join(map(str, self.grp)) if self.key == "p" else ""
        w = f" wild={self.wild}" if self.wild else ""
        return f"init key={self.key} val={self.val} aug={self.aug} n={self.n} u={self.u}{g}{w}"

    def text(self):
        return "\n".join([self.header()] + self.lines) + "\n"

    def emit(self, op, *a):
        s = " ".join([op] + [str(x) for x in a])
        if self.fusing:
            s = f"{self.fuse} {self.fusing} {s}"
        self.lines.append(s)

    # ---- values and keys
    def value(self):
        if self.aug in ("vsum", "max"):
            return self.rng.randint(1, 9 if self.aug == "vsum" else 60)
        self.fresh += 1
        return self.fresh

    def rkey(self, h=None):
        r = self.rng
        x = r.random()
        if x < 0.35 and self.recent:
            k = r.choice(self.recent) + r.choice((-2, -1, 0, 0, 1, 2))
            return min(max(k, 1), self.u)
        if h is not None and x < 0.75 and self.keys[h]:
            return r.choice(self.keys[h])
        return r.randint(1, self.u)

    def note(self, k):
        self.recent.append(k)
        if len(self.recent) > 6:
            self.recent.pop(0)

    # ---- collections
    def new(self, h, kind):
        alt = 10 if self.rng.random() < 0.3 else 0
        self.emit("new", h, KINDS[kind] + alt)
        self.kind[h], self.m[h], self.keys[h] = kind, {}, []

    def bulk(self, h, kind, items):
        """items: list of (key, value)"""
        if kind == "tree":
            items = sorted(items, key=lambda x: x[0])
        flat = [x for kv in items for x in kv]
        self.emit("bulk", h, KINDS[kind], *flat)
        self.kind[h] = kind
        self.m[h] = {k: (1 if kind == "set" else v) for k, v in items}
        self.keys[h] = sorted(self.m[h])

    def clone(self, h, src):
        self.emit("clone", h, src)
        self.kind[h], self.m[h], self.keys[h] = self.kind[src], dict(self.m[src]), list(self.keys[src])

    def drop(self, h):
        self.emit("drop", h)
        self.forget(h)

    def forget(self, h):
        del self.kind[h], self.m[h], self.keys[h]

    def clear(self, h):
        self.emit("clear", h)
        self.m[h], self.keys[h] = {}, []

    def put(self, h, k):
        v = self.value()
        if self.kind[h] == "set":
            self.emit("sinsert", h, k)
            v = 1
        else:
            self.emit("insert", h, k, v)
        if k not in self.m[h]:
            bisect.insort(self.keys[h], k)
        self.m[h][k] = v
        self.note(k)

    def lose(self, h, k):
        if k in self.m[h]:
            del self.m[h][k]
            self.keys[h].pop(bisect.bisect_left(self.keys[h], k))
            self.note(k)

    def rm(self, h, k):
        self.emit("sdel" if self.kind[h] == "set" else "del", h, k)
        self.lose(h, k)

    # many calls at once: the progression lo, lo + step, .. of n terms
    def fill(self, h, lo, n, step):
        v = self.rng.randint(1, 9) if self.aug in ("vsum", "max") else self.fresh + 1
        self.fresh = max(self.fresh, v + n)
        self.emit("fill", h, lo, n, step, v)
        new = [k for k in range(lo, lo + n * step, step) if k not in self.m[h]]
        for j in range(n):
            self.m[h][lo + j * step] = 1 if self.kind[h] == "set" else v + j
        self.keys[h] = sorted(self.keys[h] + new)
        self.note(lo)
        self.note(lo + (n - 1) * step)

    def wipe(self, h, lo, n, step):
        self.emit("wipe", h, lo, n, step)
        for j in range(n):
            self.m[h].pop(lo + j * step, None)
        self.keys[h] = sorted(self.m[h])
        self.note(lo)
        self.note(lo + (n - 1) * step)

    def churn(self, h, lo, n, step, times):
        v = self.rng.randint(1, 9) if self.aug in ("vsum", "max") else self.fresh + 1
        self.fresh = max(self.fresh, v + n)
        self.emit("churn", h, lo, n, step, v, times)
        for j in range(n):
            self.m[h].pop(lo + j * step, None)
        self.keys[h] = sorted(self.m[h])
        self.note(lo)
        self.note(lo + (n - 1) * step)

    def slide(self, h, lo, n, step, w):
        v = self.rng.randint(1, 9) if self.aug in ("vsum", "max") else self.fresh + 1
        self.fresh = max(self.fresh, v + n)
        self.emit("slide", h, lo, n, step, v, w)
        for j in range(n):
            self.m[h][lo + j * step] = 1 if self.kind[h] == "set" else v + j
            if j >= w:
                del self.m[h][lo + (j - w) * step]
        self.keys[h] = sorted(self.m[h])
        self.note(lo + (n - 1) * step)
        self.note(lo + max(0, n - w) * step)

    def attakes(self, h, i, n):
        self.emit("attakes", h, i, n)
        for k in self.keys[h][i:i + n]:
            del self.m[h][k]
            self.note(k)
        del self.keys[h][i:i + n]

    def getmut(self, h, k):
        v = self.value()
        self.emit("getmut", h, k, v)
        if k in self.m[h]:
            self.m[h][k] = v

    def size(self, h):
        return len(self.keys[h])

    # ---- selection by augmentation; the key found, or None
    def nth(self, h, i):
        return self.keys[h][i] if i < len(self.keys[h]) else None

    def nth_in(self, h, g, o):
        s = [k for k in self.keys[h] if self.grp[k - 1] == g]
        return s[o] if o < len(s) else None

    def weight(self, h, k):
        return k * 7 % 5 + 1 if self.aug == "ksum" else self.m[h][k]

    def find_key(self, h, q):
        if self.aug == "max":
            return next((k for k in self.keys[h] if self.m[h][k] >= q), None)
        if self.aug in ("ksum", "vsum"):
            for k in self.keys[h]:
                w = self.weight(h, k)
                if q < w:
                    return k
                q -= w
            return None
        return self.nth(h, q)

    def total(self, h):
        if self.aug == "max":
            return max(self.m[h].values(), default=0)
        if self.aug in ("ksum", "vsum"):
            return sum(self.weight(h, k) for k in self.keys[h])
        return self.size(h)

    # ---- cursors
    def cset(self, c, k):
        if k is None:
            self.curs.pop(c, None)
        else:
            self.curs[c] = k

    def after(self, h, k):
        i = bisect.bisect_right(self.keys[h], k)
        return self.keys[h][i] if i < len(self.keys[h]) else None

    def before(self, h, k):
        i = bisect.bisect_left(self.keys[h], k)
        return self.keys[h][i - 1] if i > 0 else None

    def cursor_op(self, h, ids=(0, 1, 2, 3, 4, 5), moves=1.0):
        r = self.rng
        c, d = r.choice(ids), r.choice(ids)
        x = r.random()
        ks = self.keys[h]
        if c not in self.curs or x < 0.12:
            y = r.random()
            if y < 0.2:
                self.emit("cfirst", h, c)
                self.cset(c, ks[0] if ks else None)
            elif y < 0.3:
                self.emit("cfirstp", h, c)
                self.cset(c, ks[0] if ks else None)
            elif y < 0.5:
                self.emit("clast", h, c)
                self.cset(c, ks[-1] if ks else None)
            else:
                k = self.rkey(h)
                self.emit("cget", h, c, k)
                self.cset(c, k)
            return
        k = self.curs[c]
        if x < 0.2:
            self.emit("ccopy", c, d)
            self.cset(d, k)
        elif x < 0.24:
            self.emit("ckey", c)
        elif x < 0.37:
            self.emit("cval", h, c)
        elif x < 0.5:
            self.emit("cexists", h, c)
        elif x < 0.75:
            self.emit(r.choice(("cnext", "cnext", "cnextp")), h, c, d)
            self.cset(d, self.after(h, k))
        else:
            self.emit(r.choice(("cprev", "cprev", "cprevp")), h, c, d)
            self.cset(d, self.before(h, k))

    # ---- iterators
    def open_iter(self, h, it):
        self.emit("iter", h, it)
        st = "keys" if self.kind[h] == "set" else "ref"
        self.its[it] = dict(st=st, kind=self.kind[h], ks=list(self.keys[h]), lo=0, hi=self.size(h), src={h})

    def into(self, h, it):
        self.emit("into", h, it)
        self.its[it] = dict(st="ownkeys" if self.kind[h] == "set" else "own", kind=self.kind[h], ks=list(self.keys[h]), lo=0, hi=self.size(h), src=set())
        self.forget(h)

    def union(self, h, g, it):
        self.emit("union", h, g, it)
        self.its[it] = dict(st="union", kind="union", ks=sorted(set(self.m[h]) | set(self.m[g])), lo=0, hi=len(set(self.m[h]) | set(self.m[g])), src={h, g})

    def close(self, it):
        del self.its[it]

    def left(self, it):
        x = self.its[it]
        return x["hi"] - x["lo"]

    def passed(self, it, front=0, back=0):
        x = self.its[it]
        x["lo"] = min(x["hi"], x["lo"] + front)
        x["hi"] = max(x["lo"], x["hi"] - back)

    def iter_step(self, it, back=0.4):
        r, x = self.rng, self.its[it]
        if x["st"] == "union":
            back = 0
        y = r.random()
        left = self.left(it)
        if y < 0.15:
            self.emit("ilen", it)
        elif y < 0.27:
            n = r.choice((0, 1, 2, self.n, r.randint(0, max(1, left)), left, left + 1)) if r.random() < 0.5 else r.randint(0, 3)
            if r.random() < 0.02:
                n = r.choice(HUGE)
            o = "inthback" if r.random() < back else "inth"
            self.emit(o, it, n)
            self.passed(it, *((0, n + 1) if o == "inthback" else (n + 1, 0)))
        elif y < 0.36 and left < 12000:
            self.iter_derived(it, r.random() < back)
        else:
            o = "iback" if r.random() < back else "inext"
            self.emit(o, it)
            self.passed(it, *((0, 1) if o == "iback" else (1, 0)))

    def iter_derived(self, it, back):
        """what the standard library derives from next and next_back, and an iterator may do in its own way"""
        r, x = self.rng, self.its[it]
        left, ks = self.left(it), x["ks"][x["lo"]:x["hi"]]
        o = r.choice(("irfind", "irpos")) if back else r.choice(("itake", "ifind", "ipos", "iall"))
        if o == "itake":
            n = r.choice((0, 1, 2, self.n, self.n + 1, r.randint(0, max(1, left))))
            self.emit(o, it, n)
            self.passed(it, n)
            return
        if ks and r.random() < 0.6:      # stay near the end it starts from
            i = min(left - 1, int(r.expovariate(1 / (self.n / 2 + 1))))
            k = ks[-1 - i] if back else ks[i]
        else:
            k = r.choice(ks) if ks and r.random() < 0.7 else r.randint(0, self.u + 1)
        k = min(self.u + 1, max(0, k + r.choice((-1, 0, 0, 0, 1))))
        self.emit(o, it, k)
        self.passed(it, *((0, sum(1 for i in ks if i > k) + 1) if back else (sum(1 for i in ks if i < k) + 1, 0)))

    def iter_end(self, it, ops=None):
        x = self.its[it]
        if ops is None:
            ops = ["idrop", "irest", "irest", "icount", "ilast"]
            if x["st"] != "union":
                ops += ["irestrev", "irestrev", "irfold"]
            if x["kind"] in ("set", "union"):
                ops += ["imin", "imax"]
            if self.left(it) < 12000:
                ops += ["ifold", "ieach", "istep", "iskip", "iminby", "imaxby"]
        o = self.rng.choice(ops)
        if o in ("istep", "iskip"):
            n = self.rng.choice((1, 2, 3, self.n - 1, self.n, self.n + 1, max(1, self.left(it) // 2)))
            self.emit(o, it, n if o == "istep" else self.rng.choice((0, n, self.left(it), HUGE[0])))
        else:
            self.emit(o, it)
        self.close(it)

    def cloneable(self, it):
        x = self.its[it]
        return x["st"] == "union" or (x["st"] == "ref" and x["kind"] == "tree") or x["st"] == "keys"

    def iclone(self, it, jt):
        self.emit("iclone", it, jt)
        self.its[jt] = dict(self.its[it])

    def consume(self, it, free, steps=None, back=None, clones=True):
        """a random walk over one iterator and clones of it, until all are finished"""
        r = self.rng
        back = r.choice((0, 0.1, 0.5, 0.9, 1)) if back is None else back
        mode = r.random() if self.left(it) < 12000 else 1
        live = [it]
        free = list(free)
        budget = (r.randint(0, 2 * self.left(it) + 6) if steps is None else steps)
        if mode < 0.25:
            budget = self.left(it) + r.randint(0, 4)   # walk to the very end and beyond
        while live:
            j = r.choice(live)
            if budget <= 0:
                self.iter_end(j)
                live.remove(j)
                continue
            budget -= 1
            if clones and free and self.cloneable(j) and r.random() < 0.06:
                k = free.pop()
                self.iclone(j, k)
                live.append(k)
            elif mode < 0.25:
                x = self.its[j]
                if r.random() < 0.1:
                    self.emit("ilen", j)
                o = "iback" if x["st"] != "union" and r.random() < back else "inext"
                self.emit(o, j)
                self.passed(j, *((0, 1) if o == "iback" else (1, 0)))
            else:
                self.iter_step(j, back)

    def end(self):
        for it in list(self.its):
            self.iter_end(it, ["idrop"])
        self.emit("end")


def make_groups(rng, u, n):
    """group of each key, ascending: runs of all lengths, from single keys to several subtrees"""
    g, cur, left = [], 1, 0
    style = rng.choice(("mixed", "small", "leaf", "big", "mixed"))
    for _ in range(u):
        if left == 0:
            cur += rng.choice((1, 1, 1, 2, 5))
            hi = {"small": 3, "leaf": n + 2, "big": 6 * n, "mixed": rng.choice((1, 2, n, 3 * n, 8 * n))}[style]
            left = rng.randint(1, max(1, hi))
        g.append(cur)
        left -= 1
    return g


# --------------------------------------------------------------------------------------------------
# Histories

def grow_keys(p, h, count):
    """keys to insert, in one of several orders"""
    r, u = p.rng, p.u
    have = p.m[h]
    style = r.choice(("asc", "desc", "rand", "cluster", "gaps", "zigzag", "near"))
    if style == "rand":
        return [r.randint(1, u) for _ in range(count)]
    if style == "near":
        c = r.choice(p.keys[h]) if p.keys[h] else r.randint(1, u)
        return [min(u, max(1, c + r.randint(-p.n, p.n))) for _ in range(count)]
    free = [k for k in range(1, u + 1) if k not in have]
    if not free:
        return [r.randint(1, u) for _ in range(min(count, 5))]
    count = min(count, len(free))
    if style == "gaps":
        return sorted(r.sample(free, count), reverse=r.random() < 0.5)
    s = r.randint(0, len(free) - count)
    if style in ("asc", "desc") and r.random() < 0.4:
        s = 0 if r.random() < 0.5 else len(free) - count
    run = free[s:s + count]
    if style == "asc":
        return run
    if style == "desc":
        return run[::-1]
    if style == "zigzag":
        out = []
        while run:
            out.append(run.pop(0))
            if run:
                out.append(run.pop())
        return out
    r.shuffle(run)
    return run


def shrink_keys(p, h, count):
    r = p.rng
    ks = list(p.keys[h])
    count = min(count, len(ks))
    style = r.choice(("asc", "desc", "rand", "run", "runrev", "middle", "ends", "other", "stripe"))
    if style == "asc":
        return ks[:count]
    if style == "desc":
        return ks[::-1][:count]
    if style == "rand":
        return r.sample(ks, count)
    s = r.randint(0, len(ks) - count)
    if style == "run":
        return ks[s:s + count]
    if style == "runrev":
        return ks[s:s + count][::-1]
    if style == "middle":
        c = s + count // 2
        return sorted(ks[s:s + count], key=lambda k: abs(ks.index(k) - c)) if count < 400 else ks[s:s + count]
    if style == "ends":
        out, lo, hi = [], 0, len(ks) - 1
        while len(out) < count and lo <= hi:
            if r.random() < 0.5:
                out.append(ks[lo]); lo += 1
            else:
                out.append(ks[hi]); hi -= 1
        return out
    if style == "other":
        return ks[s % 2::2][:count]
    step = max(2, p.n // 2)
    return [k for i in range(step) for k in ks[i::step]][:count]


def mutate(p, h, count, hook=None, clears=0.0, rm=None):
    """`count` modifications of h in phases; hook(k) runs after each"""
    r = p.rng
    done = 0
    while done < count:
        x = r.random()
        n = p.size(h)
        frac = n / p.u
        ln = min(count - done, r.choice((1, 2, 3, p.n // 2, p.n, 2 * p.n, 4 * p.n, 10 * p.n)))
        ln = max(ln, 1)
        if x < 0.02 * clears * 10 and n and p.kind[h] != "map":
            p.clear(h)
            done += 1
            if hook:
                hook(None)
            continue
        if x < 0.25:          # mixed
            bias = r.choice((0.2, 0.5, 0.8))
            for _ in range(ln):
                k = p.rkey(h)
                if r.random() < bias:
                    p.put(h, k)
                else:
                    (rm or p.rm)(h, k)
                done += 1
                if hook:
                    hook(k)
        elif x < 0.25 + 0.75 * (1 - frac) or n == 0:
            for k in grow_keys(p, h, ln):
                p.put(h, k)
                done += 1
                if hook:
                    hook(k)
        else:
            ks = shrink_keys(p, h, min(ln * r.choice((1, 1, 2)), max(1, count - done)))
            for k in ks:
                (rm or p.rm)(h, k)
                done += 1
                if hook:
                    hook(k)


def drain(p, h, hook=None, rm=None):
    while p.keys[h]:
        for k in shrink_keys(p, h, p.rng.choice((p.n, 3 * p.n, p.size(h), p.size(h)))):
            (rm or p.rm)(h, k)
            if hook:
                hook(k)


def build(p, h, kind, size, how=None):
    """a collection of about `size` entries, by inserts or in bulk"""
    r = p.rng
    size = min(size, p.u)
    how = how or r.choice(("ins", "ins", "bulk", "bulkmod"))
    if how == "ins":
        p.new(h, kind)
        while p.size(h) < size:
            for k in grow_keys(p, h, size - p.size(h)):
                p.put(h, k)
    else:
        ks = r.sample(range(1, p.u + 1), size)
        if kind == "tree" or r.random() < 0.5:
            ks.sort()
        p.bulk(h, kind, [(k, p.value()) for k in ks])
        if how == "bulkmod":
            mutate(p, h, r.randint(1, 2 * p.n))


def sizes(rng, n, u):
    """sizes around the capacities of leaves and levels"""
    c = [0, 1, 2, n - 1, n, n + 1, 2 * n, 2 * n + 1, n * (n // 2), n * n, n * (n + 1) - 1, n * (n + 1), n * (n + 1) + 1,
         n * (n + 1) + n + 1, rng.randint(0, u), rng.randint(0, u), rng.randint(0, u // 2 + 1)]
    return min(u, rng.choice(c))


def simple_read(p, h, aug_reads=True):
    r = p.rng
    k = p.rkey(h)
    kind = p.kind[h]
    ops = ["len", "isempty"] + ["member"] * 4
    if kind == "tree":
        ops += ["least", "greatest"]
    if kind == "set":
        ops += ["sleast", "sgreatest"]
    else:
        ops += ["get"] * 6
        if aug_reads:
            if p.aug == "count":
                ops += ["at", "at", "rank", "rank", "root"]
            elif p.aug in ("group", "groups"):
                ops += ["gat", "gat", "gsize", "grank", "grank", "root"]
            elif p.aug in ("hash", "khash", "ksum", "vsum", "max"):
                ops += ["find", "find", "root"]
                if p.aug in ("khash", "ksum"):
                    ops += ["foldrank", "foldrank"]
    aug_read(p, h, r.choice(ops), k)


def aug_read(p, h, op, k=None):
    r = p.rng
    k = p.rkey(h) if k is None else k
    if op in ("len", "isempty", "least", "greatest", "sleast", "sgreatest", "root", "collect", "collectrev", "shape"):
        p.emit(op, h)
    elif op in ("get", "member", "rank", "grank", "foldrank"):
        p.emit(op, h, k)
    elif op == "at":
        p.emit(op, h, index(p, h))
    elif op == "gat":
        p.emit(op, h, *group_query(p, h))
    elif op == "gsize":
        p.emit(op, h, group_query(p, h)[0])
    elif op == "find":
        p.emit(op, h, query(p, h))
    else:
        raise ValueError(op)


HUGE = (2000000000, 2000000001, 2000000063)   # stand for the largest indexes


def index(p, h):
    n = p.size(h)
    if p.rng.random() < 0.04:
        return p.rng.choice(HUGE)
    return p.rng.choice((0, max(0, n - 1), n, n + 1, p.rng.randint(0, n), p.rng.randint(0, n), p.rng.randint(0, n)))


def group_query(p, h):
    r = p.rng
    x = r.random()
    if x < 0.8 and p.keys[h]:
        g = p.grp[r.choice(p.keys[h]) - 1]
    else:
        g = max(1, p.grp[p.rkey(h) - 1] + r.choice((-1, 0, 1)))
    n = sum(1 for k in p.keys[h] if p.grp[k - 1] == g)
    if r.random() < 0.04:
        return g, r.choice(HUGE)
    return g, r.choice((0, max(0, n - 1), n, n + 1, r.randint(0, n), r.randint(0, n)))


def query(p, h):
    t = p.total(h)
    return p.rng.choice((0, max(0, t - 1), t, t + 1, p.rng.randint(0, t), p.rng.randint(0, t), p.rng.randint(0, t)))


def visit(p, h, level=None):
    r = p.rng
    end = r.choice((0, 0, 0, 1, 2, 3, 4))
    path = [r.choice((0, 1, 2, 3, r.randint(0, p.n), p.n)) for _ in range(r.randint(1, 5))]
    p.emit("visit", h, end, r.randint(0, 3) if level is None else level, *path)


# --------------------------------------------------------------------------------------------------
# Profiles. Each makes one program; `ops` is roughly its number of operations.

def dims(rng, n, ops):
    """number of possible keys"""
    if n == 4:
        return rng.choice((12, 30, 60, 90, 160))
    if n == 8:
        return rng.choice((20, 60, 150, 300, 600))
    return rng.choice((100, 200, 400, 900, 3000))


def c01(rng, n, ops):
    key, val, aug = rng.choice((("i", "i", "unit"), ("i", "i", "unit"), ("s", "s", "unit"), ("i", "i", "count"), ("s", "i", "count")))
    p = Prog(rng, n, dims(rng, n, ops), key, val, aug)
    kind = rng.choice(("map", "set", "tree", "tree"))
    if rng.random() < 0.3 or n == 64:
        build(p, 0, kind, sizes(rng, n, p.u), "bulk" if n == 64 and rng.random() < .7 else None)
    else:
        p.new(0, kind)
    dens = rng.choice((0, 0.3, 1, 1, 2))

    def hook(k):
        x = dens
        while x > 0 and rng.random() < x:
            simple_read(p, 0, False)
            x -= 1
        if kind != "set" and rng.random() < 0.08:
            p.getmut(0, p.rkey(0))
    for _ in range(4):
        mutate(p, 0, ops // 6, hook, clears=0.3)
        p.emit("collect", 0)
        if rng.random() < 0.3:
            drain(p, 0, hook)
            p.emit("collect", 0)
        for _ in range(ops // 30):
            simple_read(p, 0, False)
    p.end()
    return p


def c02(rng, n, ops):
    key, val = rng.choice((("i", "i"), ("s", "s"), ("i", "i")))
    p = Prog(rng, n, dims(rng, n, ops), key, val)
    while len(p.lines) < ops:
        kind = rng.choice(("map", "set", "tree"))
        build(p, 0, kind, sizes(rng, n, p.u))
        for _ in range(rng.randint(1, 4)):
            mutate(p, 0, rng.choice((0, 1, 3, n, 3 * n)))
            for _ in range(rng.randint(1, 3)):
                p.open_iter(0, 0)
                p.consume(0, (1, 2, 3))
            p.emit(rng.choice(("collect", "collectrev")), 0)
        p.drop(0)
    p.end()
    return p


def c03(rng, n, ops):
    key, val = rng.choice((("i", "i"), ("s", "s"), ("t", "t")))
    p = Prog(rng, n, dims(rng, n, ops), key, val)
    while len(p.lines) < ops:
        build(p, 0, rng.choice(("tree", "tree", "set")), sizes(rng, n, p.u))
        mutate(p, 0, rng.choice((0, 0, 2, n)))
        p.into(0, 0)
        if rng.random() < 0.3:
            build(p, 1, "tree", rng.randint(0, 2 * n))
            p.into(1, 1)
            for _ in range(rng.randint(0, 10)):
                p.iter_step(rng.choice((0, 1)))
            p.consume(1, ())
        p.consume(0, ())
    p.end()
    return p


def bulk_items(p, size):
    r = p.rng
    size = min(size, p.u)
    x = r.random()
    if x < 0.4:
        ks = r.sample(range(1, p.u + 1), size)
    elif x < 0.7:
        ks = list(range(1, size + 1))
    else:       # duplicates
        d = max(1, size // r.choice((1, 2, 5)))
        ks = [r.randint(1, min(p.u, d)) for _ in range(size)]
    if r.random() < 0.3 and ks:
        ks += [r.choice(ks) for _ in range(r.randint(1, 4))]
    if r.random() < 0.2 and ks:     # duplicates at the very end and the very start
        ks += [max(ks)] * r.randint(1, 3) + [min(ks)] * r.randint(1, 3)
    o = r.random()
    if o < 0.3:
        ks.sort()
    elif o < 0.5:
        ks.sort(reverse=True)
    elif o < 0.8:
        r.shuffle(ks)
    return [(k, p.value()) for k in ks]


AUGS_ALL = ("unit", "count", "hash", "khash", "ksum", "vsum", "max", "group", "groups")


def combo(aug):
    return {"group": "p", "groups": "p"}.get(aug, "i")


def c04(rng, n, ops, size=None):
    aug = rng.choice(("unit", "count", "hash", "group", "ksum"))
    u = dims(rng, n, ops) if size is None else max(12, int(size * rng.choice((1, 1.2, 2))))
    p = Prog(rng, n, u, combo(aug), "i", aug)
    first = True
    while first or (size is None and len(p.lines) < ops):
        first = False
        kind = rng.choice(("map", "tree", "tree", "set"))
        if size is not None and rng.random() < 0.6:
            p.bulk(0, kind, [(k, p.value()) for k in sorted(rng.sample(range(1, u + 1), size))])
        else:
            p.bulk(0, kind, bulk_items(p, sizes(rng, n, u) if size is None else size))
        p.emit("len", 0)
        p.emit("collect", 0)
        p.emit("collectrev", 0)
        if kind != "set":
            p.emit("root", 0)
        for _ in range(4):
            simple_read(p, 0)

        def hook(k):
            if rng.random() < 0.3:
                simple_read(p, 0)
            elif rng.random() < 0.02:
                p.emit("collect", 0)
        x = rng.random()
        if x < 0.4:
            mutate(p, 0, rng.choice((1, n, 4 * n, ops // 4)), hook)
        p.emit("collect", 0)
        if x < 0.2 or x > 0.5:
            if n < 64 or rng.random() < 0.4:
                drain(p, 0, hook)
            else:
                for k in shrink_keys(p, 0, ops // 2):
                    p.rm(0, k)
                    hook(k)
        p.emit("collect", 0)
        if kind != "set":
            p.emit("root", 0)
        if x > 0.8:
            mutate(p, 0, rng.choice((n, 3 * n)), hook)
            p.emit("collect", 0)
        p.drop(0)
    p.end()
    return p


def take_any(p):
    """removal by key, or by augmentation query"""
    def rm(h, k):
        r = p.rng
        if p.kind[h] == "set" or r.random() < 0.5 or p.aug in ("unit", "tracked"):
            return p.rm(h, k)
        if p.aug == "count":
            i = bisect.bisect_left(p.keys[h], k)
            p.emit("attake", h, i)
            f = p.nth(h, i)
        elif p.aug in ("group", "groups"):
            g = p.grp[k - 1]
            o = sum(1 for j in p.keys[h] if p.grp[j - 1] == g and j < k)
            p.emit("gtake", h, g, o)
            f = p.nth_in(h, g, o)
        else:
            if p.aug == "max":
                q = p.m[h].get(k, 5)
            elif p.aug in ("ksum", "vsum"):
                q = sum(p.weight(h, j) for j in p.keys[h] if j < k)
            else:
                q = bisect.bisect_left(p.keys[h], k)
            p.emit("findtake", h, q)
            f = p.find_key(h, q)
        if f is not None:
            p.lose(h, f)
    return rm


def c05(rng, n, ops):
    aug = rng.choice(("count", "hash", "hash", "khash", "ksum", "vsum", "max", "group", "groups"))
    u = min(dims(rng, n, ops), 900)
    p = Prog(rng, n, u, combo(aug), "i", aug)
    kind = rng.choice(("map", "tree"))
    build(p, 0, kind, sizes(rng, n, u))
    every = max(1, p.u // (3 * n))

    def hook(k):
        if rng.random() < 0.5:
            p.emit("root", 0)
        if rng.random() < 1 / every:
            p.emit("shape", 0)
        if rng.random() < 0.2:
            simple_read(p, 0)
    rm = take_any(p)
    mutate(p, 0, ops // 3, hook, clears=0.3, rm=rm)
    p.emit("shape", 0)
    if rng.random() < 0.5:
        drain(p, 0, hook, rm)
        p.emit("root", 0)
        mutate(p, 0, ops // 6, hook, rm=rm)
        p.emit("shape", 0)
    p.end()
    return p


def c06(rng, n, ops):
    key, val = rng.choice((("i", "i"), ("s", "i"), ("t", "t")))
    p = Prog(rng, n, dims(rng, n, ops), key, val, "count")
    kind = rng.choice(("map", "tree"))
    build(p, 0, kind, sizes(rng, n, p.u), "bulk" if n == 64 and rng.random() < .7 else None)

    def hook(k):
        for _ in range(rng.choice((0, 1, 1, 2))):
            aug_read(p, 0, rng.choice(("at", "at", "rank", "rank", "root", "len")))
        if rng.random() < 0.1:
            i, v = index(p, 0), p.value()
            p.emit("atmut", 0, i, v)
            f = p.nth(0, i)
            if f is not None:
                p.m[0][f] = v
    rm = take_any(p)
    for _ in range(3):
        mutate(p, 0, ops // 8, hook, clears=0.2, rm=rm)
        if p.size(0) < 200:
            sweep_index(p, 0)
    if rng.random() < 0.5 and p.size(0) < ops:
        drain(p, 0, hook, rm)
        hook(None)
    p.end()
    return p


def sweep_index(p, h):
    """every index, then every key"""
    for i in range(p.size(h) + 1):
        p.emit("at", h, i)
    step = max(1, p.u // 60)
    for k in range(1, p.u + 1, step):
        p.emit("rank", h, k)


def c07(rng, n, ops):
    aug = rng.choice(("group", "groups"))
    u = min(dims(rng, n, ops), 900)
    p = Prog(rng, n, u, "p", "i", aug)
    kind = rng.choice(("map", "tree"))
    build(p, 0, kind, sizes(rng, n, u), "bulk" if n == 64 and rng.random() < .7 else None)

    def hook(k):
        for _ in range(rng.choice((0, 1, 2, 2))):
            aug_read(p, 0, rng.choice(("gat", "gat", "gsize", "grank", "grank", "root")))
        if rng.random() < 0.1:
            (g, o), v = group_query(p, 0), p.value()
            p.emit("gmut", 0, g, o, v)
            f = p.nth_in(0, g, o)
            if f is not None:
                p.m[0][f] = v
    rm = take_any(p)
    for _ in range(3):
        mutate(p, 0, ops // 10, hook, clears=0.2, rm=rm)
        if p.size(0) < 200:
            sweep_groups(p, 0)
    if rng.random() < 0.5 and p.size(0) < ops:
        drain(p, 0, hook, rm)
        hook(None)
    p.end()
    return p


def sweep_groups(p, h):
    gs = sorted({p.grp[k - 1] for k in p.keys[h]})
    for g in gs[:40]:
        s = [k for k in p.keys[h] if p.grp[k - 1] == g]
        p.emit("gsize", h, g)
        for o in sorted({0, 1, len(s) // 2, max(0, len(s) - 1), len(s)}):
            p.emit("gat", h, g, o)
    for k in range(1, p.u + 1, max(1, p.u // 50)):
        p.emit("grank", h, k)


def c08(rng, n, ops):
    aug = rng.choice(("unit", "unit", "count"))
    key = rng.choice(("i", "i", "s")) if aug == "unit" else "i"
    p = Prog(rng, n, min(dims(rng, n, ops), 900), key, "s" if key == "s" else "i", aug)
    build(p, 0, "tree", sizes(rng, n, p.u))
    two = rng.random() < 0.3
    if two:
        build(p, 1, "tree", sizes(rng, n, p.u))
    dens = rng.choice((0.5, 1, 3, 6))

    def hook(k):
        x = dens
        while x > 0 and rng.random() < x:
            p.cursor_op(1 if two and rng.random() < 0.3 else 0)
            x -= 1
        if rng.random() < 0.05:
            # walk from a cursor to the end
            c = rng.choice(sorted(p.curs)) if p.curs else None
            if c is not None:
                fwd = rng.random() < 0.5
                for _ in range(min(3 * n, 40)):
                    if c not in p.curs:
                        break
                    j = p.curs[c]
                    p.emit("cnext" if fwd else "cprev", 0, c, c)
                    p.cset(c, p.after(0, j) if fwd else p.before(0, j))
    hook(None)
    for _ in range(4):
        mutate(p, 0, max(2, int(ops / (6 * (1 + dens)))), hook, clears=0.8)
        if two:
            mutate(p, 1, rng.randint(0, 2 * n), hook)
        if rng.random() < 0.3 and p.size(0) < ops:
            drain(p, 0, hook)
            hook(None)
        if rng.random() < 0.15:
            p.drop(0)
            build(p, 0, "tree", sizes(rng, n, p.u))
        for _ in range(12):
            hook(None)
        if rng.random() < 0.4:
            stranger(p)
    p.end()
    return p


def stranger(p):
    """the cursors are asked about another tree: a clone, or a small one they have never seen"""
    r = p.rng
    if r.random() < 0.4:
        p.clone(2, 0)
    else:
        p.bulk(2, "tree", bulk_items(p, r.choice((0, 1, p.n // 2, p.n, p.n + 1, 2 * p.n))))
    for _ in range(r.choice((6, 12, 30))):
        if p.curs:
            p.cursor_op(2, tuple(sorted(p.curs)))
        if r.random() < 0.1:
            mutate(p, 2, 1)
    p.drop(2)


def c09(rng, n, ops):
    aug = rng.choice(("unit", "count", "tracked", "tracked"))
    u = {4: rng.choice((20, 60, 120)), 8: rng.choice((40, 150)), 64: rng.choice((200, 700))}[n]
    p = Prog(rng, n, u, "t", "t", aug)
    kinds = ("map", "tree", "tree", "set")
    while len(p.lines) < ops:
        for h in (0, 1, 2):
            if h not in p.kind and rng.random() < 0.6:
                if rng.random() < 0.3:
                    p.bulk(h, rng.choice(kinds), bulk_items(p, sizes(rng, n, u)))
                else:
                    build(p, h, rng.choice(kinds), sizes(rng, n, u))
        hs = sorted(p.kind)
        if not hs:
            continue
        h = rng.choice(hs)
        x = rng.random()

        def hook(k):
            if rng.random() < 0.15 and p.kind[h] != "set":
                p.getmut(h, p.rkey(h))
            if rng.random() < 0.05:
                p.emit("collect", h)
            if rng.random() < 0.05 and p.kind[h] == "tree":
                p.cursor_op(h)
        if x < 0.45:
            rm = take_any(p) if aug == "count" else p.rm
            mutate(p, h, rng.choice((1, n, 4 * n, 10 * n)), hook, clears=0.4, rm=rm)
        elif x < 0.55:
            drain(p, h, hook)
        elif x < 0.65 and p.kind[h] == "tree" and 3 not in p.kind:
            p.clone(3, h)
            mutate(p, 3, rng.choice((0, 3, 4 * n)))
        elif x < 0.8:
            p.drop(h)
        elif x < 0.9 and p.kind[h] != "map":
            p.into(h, 0)
            p.consume(0, ())
        elif p.kind[h] == "set" and len([g for g in hs if p.kind[g] == "set"]) > 1:
            p.union(h, rng.choice([g for g in hs if p.kind[g] == "set"]), 1)
            p.consume(1, (2,), clones=False)
        else:
            p.open_iter(h, 0)
            p.consume(0, (1,))
    if rng.random() < 0.5:
        for h in sorted(p.kind):
            if rng.random() < 0.3 and p.kind[h] != "map":
                p.into(h, h)
                for _ in range(rng.randint(0, 6)):
                    p.iter_step(h)
        p.emit("end")
        return p
    p.end()
    return p


def c10(rng, n, ops):
    aug = rng.choice(("unit", "count", "hash", "ksum", "group", "tracked"))
    key = {"group": "p", "tracked": "t"}.get(aug, "i")
    u = min(dims(rng, n, ops), 600)
    p = Prog(rng, n, u, key, "t" if key == "t" else "i", aug)
    build(p, 0, "tree", sizes(rng, n, u))
    mutate(p, 0, rng.choice((0, n, 5 * n)))
    while len(p.lines) < ops:
        src = rng.choice(sorted(p.kind))
        free = [h for h in (0, 1, 2, 3) if h not in p.kind]
        if free and rng.random() < 0.7:
            h = rng.choice(free)
            for _ in range(rng.randint(0, 3)):
                simple_read(p, src)
            p.clone(h, src)
            for g in (src, h):
                for op in ("collect", "len", "root", "least", "greatest"):
                    p.emit(op, g)
        hs = sorted(p.kind)
        for _ in range(rng.randint(1, 4)):
            h = rng.choice(hs)

            def hook(k):
                g = rng.choice(hs)
                if rng.random() < 0.5:
                    simple_read(p, g)
                if rng.random() < 0.15:
                    p.cursor_op(g)
                if rng.random() < 0.03:
                    p.emit("collect", g)
            mutate(p, h, rng.choice((1, n, 3 * n)), hook, clears=0.5, rm=take_any(p))
            if rng.random() < 0.1:
                drain(p, h, hook)
        for g in hs:
            p.emit("collect", g)
            p.emit("root", g)
        if len(hs) > 1 and rng.random() < 0.5:
            h = rng.choice(hs)
            if rng.random() < 0.5:
                p.drop(h)
            else:
                p.into(h, 0)
                p.consume(0, ())
            for g in sorted(p.kind):
                p.emit("collect", g)
                simple_read(p, g)
    p.end()
    return p


def c11(rng, n, ops):
    u = min(dims(rng, n, ops), 1500)
    p = Prog(rng, n, u)
    while len(p.lines) < ops:
        kind = rng.choice(("map", "tree"))
        if rng.random() < 0.65:
            p.new(0, kind)
        else:
            p.bulk(0, kind, bulk_items(p, sizes(rng, n, u)))
            p.emit("shape", 0)
        every = max(1, p.u // (3 * n))

        def hook(k):
            if rng.random() < 1 / every:
                p.emit("shape", 0)
            elif rng.random() < 0.1:
                simple_read(p, 0)
        mutate(p, 0, ops // 3, hook, clears=0.1)
        p.emit("shape", 0)
        if rng.random() < 0.6:
            drain(p, 0, hook)
            p.emit("shape", 0)
        p.drop(0)
    p.end()
    return p


def c12(rng, n, ops):
    aug = rng.choice(("unit", "count", "hash", "ksum", "max"))
    u = min(dims(rng, n, ops), 600)
    p = Prog(rng, n, u, "i", "i", aug)
    while len(p.lines) < ops:
        kind = rng.choice(("map", "tree"))
        build(p, 0, kind, sizes(rng, n, u))

        def hook(k):
            for _ in range(rng.choice((0, 1, 2, 3))):
                visit(p, 0)
            if rng.random() < 0.3:
                aug_read(p, 0, rng.choice(("get", "len")))
        hook(None)
        mutate(p, 0, ops // 8, hook)
        p.emit("collect", 0)
        for i in range(min(30, ops // 10)):
            visit(p, 0)
        p.drop(0)
    p.end()
    return p


def c13(rng, n, ops):
    key = rng.choice(("i", "i", "s", "t"))
    p = Prog(rng, n, min(dims(rng, n, ops), 600), key, {"i": "i", "s": "s", "t": "t"}[key])
    while len(p.lines) < ops:
        style = rng.choice(("rand", "rand", "disjoint", "apart", "nested", "empty", "same"))
        u = p.u
        a = rng.sample(range(1, u + 1), sizes(rng, n, u))
        if style == "disjoint":
            b = [k for k in range(1, u + 1) if k not in set(a)][:sizes(rng, n, u)]
        elif style == "apart":
            m = rng.randint(1, u)
            a, b = [k for k in range(1, m)], [k for k in range(m, u + 1) if rng.random() < 0.7]
        elif style == "nested":
            b = rng.sample(a, len(a) // 2)
        elif style == "empty":
            b = []
        else:
            b = rng.sample(range(1, u + 1), sizes(rng, n, u))
        if rng.random() < 0.5:
            a, b = b, a
        for h, ks in ((0, a), (1, b)):
            if rng.random() < 0.5:
                p.bulk(h, "set", [(k, 1) for k in ks])
            else:
                p.new(h, "set")
                rng.shuffle(ks)
                for k in ks[:300]:
                    p.put(h, k)
            mutate(p, h, rng.choice((0, 2, n)))
        for _ in range(3):
            x, y = (0, 0) if style == "same" else rng.choice(((0, 1), (1, 0), (0, 1), (1, 1)))
            p.union(x, y, 0)
            if rng.random() < 0.3:
                # step by step with the size hint before every step
                while p.left(0) > 0 and rng.random() < 0.97:
                    p.emit("ilen", 0)
                    p.emit("inext", 0)
                    p.passed(0, 1)
                p.emit("ilen", 0)
                p.iter_end(0)
            else:
                p.consume(0, (1, 2, 3))
        p.drop(0)
        p.drop(1)
    p.end()
    return p


def c14(rng, n, ops):
    aug = rng.choice(("unit", "unit", "count"))
    p = Prog(rng, n, dims(rng, n, ops), "y", "i", aug)
    kind = rng.choice(("tree", "tree", "map", "set"))
    build(p, 0, kind, sizes(rng, n, p.u))
    while len(p.lines) < ops:
        def hook(k):
            for _ in range(rng.choice((0, 1, 2, 6))):
                if kind == "tree" and rng.random() < 0.3:
                    p.cursor_op(0)
                else:
                    simple_read(p, 0)
        mutate(p, 0, rng.choice((1, 2, n, 3 * n)), hook, clears=0.3)
        if rng.random() < 0.5:
            threads = rng.choice((2, 3, 4))
            parallel(p, [0], threads, rng.choice((2, 5, 12)))
            if rng.random() < 0.5:
                p.emit("collect", 0)
    p.end()
    return p


def parallel(p, hs, threads, per, order=None):
    r = p.rng
    out = []
    keep = p.lines
    for t in range(threads):
        ids = (2 * t, 2 * t + 1) if t < 3 else ()
        for _ in range(per):
            h = r.choice(hs)
            p.lines = []
            if p.kind[h] == "tree" and ids and r.random() < 0.35:
                p.cursor_op(h, ids)
            elif r.random() < 0.05:
                p.emit("collect", h)
            else:
                simple_read(p, h)
            out += [f"{t} {x}" for x in p.lines]
    p.lines = keep
    if order is None:
        order = [r.randrange(threads) for _ in range(r.choice((0, 3, 10)) * per)]
    p.lines.append(" ".join(["par"] + [str(x) for x in order]))
    p.lines += out
    p.lines.append("endpar")


def anything(p, h, hook=None):
    """any legal operation on a collection (not consuming it)"""
    r = p.rng
    x = r.random()
    if x < 0.4:
        mutate(p, h, r.choice((1, 2, p.n)), None, clears=0.2, rm=take_any(p))
    elif x < 0.65:
        simple_read(p, h)
    elif x < 0.75 and p.kind[h] == "tree":
        p.cursor_op(h)
    elif x < 0.8 and p.kind[h] != "set" and p.aug not in ("hash", "vsum", "max"):
        p.getmut(h, p.rkey(h))
    elif x < 0.88 and p.kind[h] != "set":
        visit(p, h)
    elif x < 0.9 and p.kind[h] != "set" and p.size(h) < 300:
        p.emit("shape", h)
    elif x < 0.93:
        p.emit(r.choice(("collect", "collectrev")), h)
    else:
        p.open_iter(h, 0)
        p.consume(0, (1, 2), steps=r.randint(0, 12))


def c15(rng, n, ops):
    aug = rng.choice(AUGS_ALL)
    key = rng.choice(("i", "s")) if aug == "unit" else combo(aug)
    p = Prog(rng, n, min(dims(rng, n, ops), 900), key, "s" if key == "s" else "i", aug)
    while len(p.lines) < ops:
        for h in (0, 1):
            if h not in p.kind:
                kind = rng.choice(("map", "tree", "tree", "set"))
                if rng.random() < 0.4:
                    p.bulk(h, kind, bulk_items(p, sizes(rng, n, p.u)))
                else:
                    build(p, h, kind, sizes(rng, n, p.u))
        hs = sorted(p.kind)
        h = rng.choice(hs)
        x = rng.random()
        if x < 0.75:
            for _ in range(rng.randint(1, 12)):
                anything(p, h)
        elif x < 0.85:
            drain(p, h, lambda k: anything_read(p, h), take_any(p))
            anything(p, h)
        elif x < 0.9 and p.kind[h] == "tree" and 2 not in p.kind:
            p.clone(2, h)
        elif x < 0.93 and all(p.kind[g] == "set" for g in (0, 1)):
            p.union(0, 1, 0)
            p.consume(0, (1, 2))
        elif x < 0.97 and p.kind[h] != "map":
            p.into(h, 0)
            p.consume(0, ())
        else:
            p.drop(h)
    p.end()
    return p


def anything_read(p, h):
    if p.rng.random() < 0.3:
        simple_read(p, h)
    if p.kind[h] == "tree" and p.rng.random() < 0.2:
        p.cursor_op(h)


def c16(rng, n, ops):
    aug = rng.choice(("unit", "count"))
    u = {4: rng.choice((20, 60, 120)), 8: rng.choice((40, 150)), 64: rng.choice((200, 700))}[n]
    p = Prog(rng, n, u, "t", "t", aug)
    kind = rng.choice(("map", "tree", "tree", "set"))
    build(p, 0, kind, sizes(rng, n, u))
    depth = 14 if n < 64 else 20

    def attempt(fn):
        """the j-th comparison panics, for j = 1, 2, ... until the call gets through"""
        js = sorted(rng.sample(range(1, depth), rng.choice((1, 2, 3)))) if rng.random() < 0.6 else range(1, depth, rng.choice((1, 2)))
        for j in js:
            p.fusing = j
            fn()
            p.fusing = 0

    def put():
        k = p.rkey(0)
        attempt(lambda: raw_put(p, 0, k))

    def rm():
        k = p.rkey(0)
        attempt(lambda: p.emit("sdel" if kind == "set" else "del", 0, k))

    def rd():
        k = p.rkey(0)
        ops_ = ["member"] + (["get"] if kind != "set" else []) + (["rank"] * 2 if aug == "count" and kind != "set" else [])
        if kind == "tree" and p.curs:
            ops_ += ["cval", "cnext", "cprev", "cget", "cexists"]
        op = rng.choice(ops_)

        def go():
            if op in ("member", "get", "rank"):
                p.emit(op, 0, k)
            elif op == "cget":
                p.emit(op, 0, 5, k)
            else:
                c = rng.choice(sorted(c for c in p.curs if c < 5) or [0])
                if c not in p.curs:
                    return
                if op in ("cval", "cexists"):
                    p.emit(op, 0, c)
                else:
                    p.emit(op, 0, c, 5)
        attempt(go)
        p.curs.pop(5, None)
    while len(p.lines) < ops:
        # a fused call either fails without effect or gets through: its effect is only known when replayed, so
        # afterwards the collection is brought back to a known state
        rng.choice((put, rm, rd))()
        p.emit("len", 0)
        settle(p, 0)
        if rng.random() < 0.3:
            p.emit("collect", 0)
        mutate(p, 0, rng.choice((0, 1, 2, n)))
        for _ in range(rng.randint(0, 3)):
            simple_read(p, 0)
        if kind == "tree":
            for _ in range(rng.randint(0, 2)):
                p.cursor_op(0, (0, 1, 2, 3, 4))
    p.end()
    return p


def raw_put(p, h, k):
    if p.kind[h] == "set":
        p.emit("sinsert", h, k)
    else:
        p.emit("insert", h, k, p.value())
    p.unsure = k


def settle(p, h):
    k = getattr(p, "unsure", None)
    if k is not None:
        if p.rng.random() < 0.5:
            p.put(h, k)
        else:
            p.rm(h, k)
            p.m[h].pop(k, None)
            i = bisect.bisect_left(p.keys[h], k)
            if i < len(p.keys[h]) and p.keys[h][i] == k:
                p.keys[h].pop(i)
        p.unsure = None
    # removals that got through: keys the model still believes in are harmless (only used to choose arguments)


def c19(rng, n, ops):
    """like c16, with clones that panic instead of comparisons: single ones at the node boundaries, many while copying"""
    aug = rng.choice(("unit", "count", "tracked", "tracked"))
    u = {4: rng.choice((20, 60, 120)), 8: rng.choice((40, 150)), 64: rng.choice((200, 700))}[n]
    p = Prog(rng, n, u, "t", "t", aug)
    p.fuse = "fusec"
    kind = rng.choice(("map", "tree", "tree", "set"))
    build(p, 0, kind, sizes(rng, n, u))

    def attempt(fn, js=(1,)):
        for j in js:
            p.fusing = j
            fn()
            p.fusing = 0

    def put(k=None):
        k = p.rkey(0) if k is None else k
        attempt(lambda: raw_put(p, 0, k), (1, 2) if rng.random() < 0.1 else (1,))
        p.unsure = k if rng.random() < 0.3 else None
        if p.unsure is None:        # a call that gets through after all is repeated: then it is known what happened
            p.put(0, k)

    def rm():
        if rng.random() < 0.3 and kind != "set" and aug == "count" and p.keys[0]:
            i = rng.randrange(p.size(0))
            k = p.keys[0][i]
            attempt(lambda: p.emit("attake", 0, i))
        else:
            k = p.rkey(0)
            attempt(lambda: p.emit("sdel" if kind == "set" else "del", 0, k))
        if rng.random() < 0.5:
            p.rm(0, k)
        else:
            p.unsure = k

    def copy():
        """every clone of a copy in turn, and the one after the last"""
        size = p.size(0)
        total = 3 * size + 4
        js = range(1, total) if size < 12 else sorted(rng.sample(range(1, total), rng.randint(1, 12)))
        if kind == "tree" and rng.random() < 0.5:
            for j in js:
                p.fusing = j
                p.emit("clone", 3, 0)
                p.fusing = 0
                p.emit("scrap", 3)
        else:
            items = bulk_items(p, rng.choice((0, 1, n, n + 1, 2 * n, n * (n + 1), n * (n + 1) + 1, sizes(rng, n, u))))
            kb = rng.choice(("map", "set", "tree"))
            if kb == "tree":
                items.sort(key=lambda x: x[0])
            flat = [x for kv in items for x in kv]
            total = 3 * len(items) + 4
            for j in (range(1, total) if len(items) < 12 else sorted(rng.sample(range(1, total), rng.randint(1, 8)))):
                p.fusing = j
                p.emit("bulk", 3, KINDS[kb], *flat)
                p.fusing = 0
                p.emit("scrap", 3)

    def cur():
        if kind == "tree":
            c = rng.choice([c for c in p.curs if c < 5] or [0])
            k = p.rkey(0)
            if c not in p.curs:
                attempt(lambda: p.emit("cget", 0, 5, k))
            else:
                op = rng.choice(("cnext", "cprev", "cget", "cfirst", "clast", "ccopy"))
                attempt(lambda: p.emit(op, *{"cget": (0, 5, k), "cfirst": (0, 5), "clast": (0, 5), "ccopy": (c, 5)}.get(op, (0, c, 5))))
            p.curs.pop(5, None)
            p.cursor_op(0, (0, 1, 2, 3, 4))
    while len(p.lines) < ops:
        rng.choice((put, put, put, rm, rm, rm, cur, copy))()
        p.emit("len", 0)
        settle(p, 0)
        if rng.random() < 0.4:
            p.emit("collect", 0)
        if rng.random() < 0.2:
            p.emit("collectrev", 0)
        if rng.random() < 0.5:
            # grow or shrink one call at a time, each first with a clone that panics
            down = rng.random() < 0.5
            for _ in range(rng.choice((1, n // 2, n, 2 * n))):
                if down:
                    if not p.keys[0]:
                        break
                    k = rng.choice((p.keys[0][0], p.keys[0][-1], p.keys[0][len(p.keys[0]) // 2]))
                    attempt(lambda: p.emit("sdel" if kind == "set" else "del", 0, k))
                    p.rm(0, k)
                else:
                    put(rng.randint(1, p.u))
                    settle(p, 0)
            p.emit("collect", 0)
        else:
            mutate(p, 0, rng.choice((0, 1, 2, n)))
        for _ in range(rng.randint(0, 3)):
            simple_read(p, 0)
    p.end()
    return p


def lying(p, lies=None):
    """the ordering of the keys breaks its promises; what the collections hold is then not known here"""
    r = p.rng
    p.wild = f"{r.randint(1, 1 << 40)}:{r.choice((1, 5, 20, 50, 90)) if lies is None else lies}"


def lying_reads(p, h, kind, some=3):
    r = p.rng
    for _ in range(r.randint(0, some)):
        k, i, c = r.randint(1, p.u), r.choice((0, 1, p.n, r.randint(0, p.u))), r.randint(0, 3)
        ops = [("get", h, k), ("len", h), ("collect", h), ("collectrev", h), ("shape", h), ("member", h, k)]
        if p.aug == "count":
            ops += [("at", h, i), ("rank", h, k), ("root", h)]
        if kind == "tree":
            ops += [("cget", h, c, k), ("cfirst", h, c), ("clast", h, c), ("cval", h, c), ("cexists", h, c)]
            ops += 2 * [("cnext", h, c, r.randint(0, 3)), ("cprev", h, c, r.randint(0, 3))]
        p.emit(*r.choice(ops))


def lying_change(p, h, kind):
    r = p.rng
    k = r.randint(1, p.u)
    ops = 4 * [("insert", h, k, p.value())] + 4 * [("del", h, k)] + [("getmut", h, k, p.value())]
    if p.aug == "count":
        i = r.choice((0, 1, r.randint(0, p.n), r.randint(0, p.u)))
        ops += 2 * [("attake", h, i)] + [("atmut", h, i, p.value())]
    if r.random() < 0.05:
        p.fusing = r.randint(1, 12)
        ops = [o for o in ops if o[0] in ("insert", "del")]
    p.emit(*r.choice(ops))
    p.fusing = 0


def lying_run(p, h):
    r = p.rng
    n = r.choice((1, p.n // 2, p.n, p.n * p.n // 2, p.n * p.n))
    step = r.choice((1, 1, -1, 2, 7))
    lo = r.randint(1, p.u)
    if r.random() < 0.5:
        p.emit("fill", h, lo, n, step, p.fresh + 1)
        p.fresh += n + 1
    else:
        p.emit("wipe", h, lo, n, step)


def lying_iter(p, h, own):
    """an iterator, from both ends"""
    r = p.rng
    p.emit("collect", h)
    p.emit("into" if own else "iter", h, 0)
    for _ in range(r.choice((0, 1, 5, 40, 4 * p.n))):
        p.emit(r.choice(("inext", "iback", "inext", "iback", "ilen")), 0)
    p.emit(r.choice(("irest", "irestrev", "idrop")), 0)


def c20(rng, n, ops):
    aug = rng.choice(("unit", "count", "count", "tracked"))
    u = {4: rng.choice((12, 40, 120)), 8: rng.choice((30, 100, 200)), 64: rng.choice((200, 1000, 3000))}[n]
    p = Prog(rng, n, u, "t", "t", aug)
    lying(p)
    kind = rng.choice(("map", "tree", "tree"))

    def start(h):
        if rng.random() < 0.4:
            ks = rng.sample(range(1, u + 1), rng.choice((0, 1, n, n + 1, rng.randint(1, u), min(u, n * (n + 1) + 1))))
            if kind == "tree" or rng.random() < 0.7:
                ks.sort()
            p.emit("bulk", h, KINDS[kind], *[x for k in ks for x in (k, p.value())])
        else:
            p.emit("new", h, KINDS[kind])
            p.emit("fill", h, 1, rng.randint(0, u), 1, p.fresh + 1)
            p.fresh += u + 1
    start(0)
    while len(p.lines) < ops:
        x = rng.random()
        if x < 0.7:
            lying_change(p, 0, kind)
        elif x < 0.85:
            lying_run(p, 0)
        elif x < 0.9:
            lying_iter(p, 0, False)
        elif x < 0.93 and kind == "tree":
            p.emit("collect", 0)
            p.emit("clone", 1, 0)
            for _ in range(rng.randint(0, 20)):
                lying_change(p, rng.choice((0, 1)), kind)
            p.emit("collect", 1)
            lying_reads(p, 1, kind)
            if rng.random() < 0.4:
                lying_iter(p, 1, True)
            else:
                p.emit("drop", 1)
        elif x < 0.95:
            if kind == "tree":
                p.emit(*rng.choice((("clear", 0), ("collect", 0), ("collect", 0))))
            else:
                p.emit("drop", 0)
                start(0)
        elif x < 0.98 and kind == "tree":
            lying_iter(p, 0, True)
            start(0)
        lying_reads(p, 0, kind)
    p.emit("collectrev", 0)
    p.emit("shape", 0)
    if kind == "tree" and rng.random() < 0.5:
        lying_iter(p, 0, True)
    p.emit("end")
    return p


def lying_deep(r, n):
    """thousands of entries, grown and shrunk by runs of calls"""
    u = min(r.choice(DEEP_U[n]), 3000)
    p = Prog(r, n, u, "t", "t", r.choice(("unit", "count", "tracked")))
    lying(p, r.choice((1, 2, 5, 20)))
    kind = r.choice(("map", "tree"))
    p.emit("new", 0, KINDS[kind])

    def run(op, m=None):
        m = m or r.randint(1, u)
        p.emit(op, 0, *r.choice(((1, m, 1), (u, m, -1), (r.randint(1, u), m, r.choice((1, 3, 7)))), ), *((p.fresh + 1,) if op == "fill" else ()))
        p.fresh += m + 1
    run("fill", u)
    for _ in range(r.randint(6, 14)):
        run(r.choice(("fill", "wipe", "wipe")))
        for _ in range(r.randint(0, 30)):
            lying_change(p, 0, kind)
        p.emit("collect", 0)
        if r.random() < 0.5:
            p.emit("shape", 0)
        lying_reads(p, 0, kind, 30)
    for _ in range(r.randint(0, 12)):
        run("wipe", u)
    p.emit("collectrev", 0)
    if kind == "tree" and r.random() < 0.5:
        lying_iter(p, 0, True)
    p.emit("end")
    return p


def c17(rng, n, ops):
    aug = rng.choice(("unit", "count", "hash", "group", "ksum", "vsum", "max"))
    u = min(dims(rng, n, ops), 400)
    p = Prog(rng, n, u, combo(aug), "i", aug)
    kind = rng.choice(("map", "tree", "tree", "set"))
    build(p, 0, kind, sizes(rng, n, u))
    while len(p.lines) < ops:
        def hook(k):
            if rng.random() < 0.2:
                simple_read(p, 0)
            if kind == "tree" and rng.random() < 0.15:
                p.cursor_op(0)
        mutate(p, 0, rng.choice((1, n, 5 * n, 12 * n)), hook, rm=take_any(p))
        for _ in range(rng.randint(0, 3)):
            hook(None)
        if kind != "map" and rng.random() < 0.4:
            p.clear(0)
        else:
            drain(p, 0, hook, take_any(p))
        empty_reads(p, 0)
        if rng.random() < 0.5:
            k = rng.randint(1, u)
            p.put(0, k)
            simple_read(p, 0)
            if rng.random() < 0.5:
                p.rm(0, k)
                empty_reads(p, 0)
    p.end()
    return p


def empty_reads(p, h):
    r = p.rng
    kind = p.kind[h]
    ops = ["len", "isempty", "member", "collect", "collectrev"]
    if kind == "tree":
        ops += ["least", "greatest"]
    if kind == "set":
        ops += ["sleast", "sgreatest"]
    else:
        ops += ["get", "root"]
        ops += {"count": ["at", "rank"], "group": ["gat", "gsize", "grank"], "hash": ["find"], "ksum": ["find", "foldrank"],
                "vsum": ["find"], "max": ["find"]}.get(p.aug, [])
    for op in ops:
        if r.random() < 0.6:
            aug_read(p, h, op)
    if kind == "tree":
        if r.random() < 0.5:
            p.emit(r.choice(("cfirst", "clast", "cfirstp")), h, 5)
            p.cset(5, None)
        for c in sorted(p.curs):
            if c not in p.curs:
                continue
            if r.random() < 0.3:
                p.emit(r.choice(("cval", "cexists")), h, c)
            if r.random() < 0.3:
                p.emit(r.choice(("cnext", "cprev")), h, c, 5)
                p.cset(5, None)
    p.open_iter(h, 0)
    p.consume(0, (1,), steps=r.randint(0, 4))


def find_bad(p, h):
    """a query that the user's functions answer with an index outside the node"""
    r, q = p.rng, query(p, h)
    p.emit("findbad", h, r.choice((0, 0, 1, 2, 3, 4)), r.choice((0, 0, 1, 2, 9)), r.choice((0, 1, 2)) if p.find_key(h, q) is not None else 0,
           p.value(), q)
    if r.random() < 0.5:
        p.emit("collect", h)


def c18(rng, n, ops):
    aug = rng.choice(("hash", "khash", "ksum", "vsum", "max"))
    u = min(dims(rng, n, ops), 600)
    p = Prog(rng, n, u, "i", "i", aug)
    kind = rng.choice(("map", "tree"))
    build(p, 0, kind, sizes(rng, n, u))

    def hook(k):
        for _ in range(rng.choice((0, 1, 2))):
            aug_read(p, 0, rng.choice(("find", "find", "root") + (("foldrank",) * 3 if aug in ("khash", "ksum") else ())))
        if rng.random() < 0.15:
            find_bad(p, 0)
        if rng.random() < 0.1 and aug in ("khash", "ksum"):
            q, v = query(p, 0), p.value()
            p.emit("findmut", 0, q, v)
            f = p.find_key(0, q)
            if f is not None:
                p.m[0][f] = v
    rm = take_any(p)
    for _ in range(3):
        mutate(p, 0, ops // 10, hook, clears=0.2, rm=rm)
        if p.size(0) < 120:
            t = p.total(0)
            for q in range(0, t + 2, max(1, t // 60)):
                p.emit("find", 0, q)
            if aug in ("khash", "ksum"):
                for k in range(1, u + 1, max(1, u // 40)):
                    p.emit("foldrank", 0, k)
    if rng.random() < 0.5 and p.size(0) < ops:
        drain(p, 0, hook, rm)
        hook(None)
    p.end()
    return p


# deep trees

DEEP_U = {4: (600, 1500, 2500), 8: (1500, 3000, 5000), 64: (5000, 7000, 9000)}
HUGE_U = {4: 16000, 8: 24000, 64: 75000}
# so many rounds of filling and emptying use up more node numbers than 16 bits can hold
HUGE_CHURN = {4: 10, 8: 22, 64: 32}


def progression(p, h, wipe=False):
    """lo, n, step: the terms are possible keys"""
    r, u, n = p.rng, p.u, p.n
    step = r.choice((1, 1, 1, 2, 2, 3, 5, max(2, n // 4), max(2, n // 2), n + 1))
    most = (u - 1) // step + 1
    ln = r.choice((n // 2, n, 3 * n, n * n // 4, n * n, most, most, most // 2, most // 4))
    ln = max(1, min(ln, most))
    room = u - (ln - 1) * step
    lo = r.choice((1, room, r.randint(1, room), r.randint(1, room)))
    if p.keys[h] and r.random() < 0.3:
        lo = min(room, r.choice(p.keys[h]))
    if r.random() < 0.45:
        return lo + (ln - 1) * step, ln, -step
    return lo, ln, step


def deep_reads(p, h, prop):
    r, kind = p.rng, p.kind[h]
    x = r.random()
    lo, n, step = progression(p, h)
    if kind != "set" and x < 0.35:
        p.emit("shape", h)
    elif x < 0.6:
        p.emit("probe", h, lo, n, step)
    elif x < 0.7:
        p.emit(r.choice(("collect", "collectrev")), h)
    if kind != "set":
        if p.aug in ("count", "hash", "khash") and r.random() < 0.4:
            p.emit("ats", h, *progression(p, h))
        if p.aug == "count" and r.random() < 0.4:
            p.emit("ranks", h, min(lo, lo + (n - 1) * step), n, abs(step))
        if r.random() < 0.5:
            visit(p, h)
        p.emit("root", h)
    if kind == "tree" and r.random() < (0.9 if prop == "C08" else 0.3):
        k = p.rkey(h)
        c = r.randint(0, 2)
        p.emit("cget", h, c, k)
        for d in r.choice(((1,), (0,), (1, 0), (0, 1))):
            p.emit("cwalk", h, c, r.choice((1, p.n, 3 * p.n, p.n * p.n, p.u)), d)
        p.emit("cval", h, c)
        p.emit("ckey", c)
    for _ in range(r.randint(0, 4)):
        if kind != "set":
            simple_read(p, h)
    p.emit("len", h)
    if prop in ("C02", "C12") or r.random() < 0.15:
        if kind == "set" or prop != "C12":
            p.open_iter(h, 0)
            p.consume(0, (1,), steps=r.randint(0, 12))


def deep_c11(p, prop):
    """removals from one region of a deep tree that leave the nodes around it alone"""
    r = p.rng
    for _ in range(r.randint(1, 3)):
        if not p.keys[0]:
            return
        lo = r.choice(p.keys[0])
        for _ in range(r.randint(1, 6)):
            ln = min(r.choice((p.n, p.n * p.n // 4, p.n * p.n // 2)), p.u - lo + 1)
            if r.random() < 0.5:
                p.wipe(0, lo, ln, 1)
            else:
                p.wipe(0, lo + ln - 1, ln, -1)
            p.emit("shape", 0)
            lo = min(p.u, lo + ln) if r.random() < 0.7 else max(1, lo - ln)


DEEP_AUGS = {"C01": ("unit", "count"), "C02": ("unit",), "C03": ("unit",), "C05": ("count", "hash", "khash", "ksum", "max", "group"), "C06": ("count",),
             "C07": ("group", "groups"), "C08": ("unit", "count"), "C09": ("tracked", "count", "tracked"), "C11": ("unit",), "C12": ("unit", "count", "khash"),
             "C13": ("unit",), "C14": ("unit", "count"), "C16": ("unit", "count"), "C18": ("hash", "khash", "ksum"),
             "C19": ("unit", "count", "tracked")}
DEEP_KINDS = {"C02": ("tree", "set", "map"), "C03": ("tree", "set"), "C08": ("tree",), "C10": ("tree",), "C13": ("set",), "C14": ("tree", "map", "set"),
              "C16": ("tree", "map", "set"), "C19": ("tree", "map", "set"), "C17": ("tree", "tree", "set"), "C01": ("map", "tree", "set")}


def deep_start(p, h, kind, bulk=0.25):
    r, u = p.rng, p.u
    if r.random() < bulk:
        ks = sorted(r.sample(range(1, u + 1), r.randint(u // 2, u)))
        if r.random() < 0.3:
            r.shuffle(ks)
        p.bulk(h, kind, [(k, p.value()) for k in ks])
        return
    p.new(h, kind)
    if r.random() < 0.6 or u > 20000:
        p.fill(h, 1, u, 1) if r.random() < 0.5 else p.fill(h, u, u, -1)
    elif r.random() < 0.5:
        a = r.choice((3, 7, 11))
        for s in r.sample(range(1, a + 1), a):
            p.fill(h, s, (u - s) // a + 1, a)
    else:
        while p.size(h) < u // 2:
            p.fill(h, *progression(p, h))


def deep_change(p, h, prop):
    r = p.rng
    x = r.random()
    full = p.size(h) / p.u
    if x < 0.25 and h == 0 and p.kind[h] != "set":
        deep_c11(p, prop)
    elif x < 0.36 and p.key not in ("t", "p"):
        lo, n, step = progression(p, h)
        if r.random() < 0.3:
            p.churn(h, lo, n, step, r.choice((1, 2, 2, 5)))
        else:
            for _ in range(r.randint(1, 2)):
                p.slide(h, lo, n, step, r.choice((0, 1, p.n, p.n * p.n // 2, p.n * p.n, 2 * p.n * p.n)))
                lo, n, step = progression(p, h)
    elif x < 0.42 and full > 0.2:
        for _ in range(r.randint(3, 30)):
            mutate(p, h, r.choice((1, 2, p.n // 2)))
    elif x < 0.42 + 0.48 * (1 - full):
        for _ in range(r.randint(1, 4)):
            p.fill(h, *progression(p, h))
    elif p.aug == "count" and p.kind[h] != "set" and x < 0.8 and p.keys[h]:
        for _ in range(r.randint(1, 3)):
            s = p.size(h)
            p.attakes(h, r.choice((0, s // 2, r.randint(0, s), max(0, s - p.n))), r.choice((p.n // 2, p.n, p.n * p.n // 4, p.n * p.n // 2)))
    else:
        for _ in range(r.randint(1, 4)):
            p.wipe(h, *progression(p, h))


def deep_drain(p, h):
    r, n, u = p.rng, p.n, p.u
    while p.keys[h]:
        a = r.choice((1, 2, 3, n // 2, n))
        for s in r.sample(range(1, a + 1), a):
            m = (u - s) // a + 1
            p.wipe(h, s, m, a) if r.random() < 0.5 else p.wipe(h, s + (m - 1) * a, m, -a)
            if r.random() < 0.3 and p.kind[h] != "set":
                p.emit("shape", h)


def deep(prop, seed, n, huge=False):
    r = random.Random(f"deep/{prop}/{seed}/{n}/{huge}")
    if prop == "C20":
        return lying_deep(r, n)
    u = HUGE_U[n] if huge else r.choice(DEEP_U[n])
    aug = r.choice(DEEP_AUGS.get(prop, ("unit", "count", "hash", "khash")))
    key, val = {"C09": ("t", "t"), "C16": ("t", "t"), "C19": ("t", "t"), "C14": ("y", "i")}.get(prop, (combo(aug), "i"))
    if key in ("t", "p"):
        u = min(u, 3000)
    p = Prog(r, n, u, key, val, aug)
    kind = r.choice(DEEP_KINDS.get(prop, ("map", "tree")))
    deep_start(p, 0, kind, 1 if prop == "C04" and not huge else 0 if huge else 0.25)
    deep_reads(p, 0, prop)
    if huge and key != "t":
        m = u // 2 if n == 64 else u
        p.churn(0, r.choice((1, u - m + 1)), m, 1, HUGE_CHURN[n] * (u // m))
        deep_reads(p, 0, prop)
        p.fill(0, *r.choice(((1, u, 1), (u, u, -1), (1, u // 2, 2))))
        deep_reads(p, 0, prop)
    if prop == "C13":
        deep_start(p, 1, kind, 0.5)
    for _ in range(r.randint(1, 2) if huge else r.randint(5, 10) if prop not in ("C03", "C13") else r.randint(1, 3)):
        h = r.choice(sorted(p.kind))
        deep_change(p, h, prop)
        deep_reads(p, h, prop)
        if prop in ("C05", "C11"):
            p.emit("shape", 0)
        if prop == "C07":
            for _ in range(r.randint(5, 40)):
                aug_read(p, h, r.choice(("gat", "gsize", "grank", "root")))
        if prop == "C10" and len(p.kind) < 3:
            g = max(p.kind) + 1
            p.clone(g, h)
            for _ in range(3):
                x, y = r.choice(((g, h), (h, g)))
                deep_change(p, x, prop)
                p.emit("collect", y)
                deep_reads(p, y, prop)
        if prop == "C13":
            for _ in range(2):
                x, y = r.choice(((0, 1), (1, 0)))
                p.union(x, y, 0)
                p.consume(0, (1, 2), steps=r.randint(0, 60))
        if prop == "C14":
            deep_parallel(p, h)
        if prop == "C17" and r.random() < 0.7:
            if r.random() < 0.6:
                p.clear(h)
            else:
                deep_drain(p, h)
            deep_reads(p, h, prop)
            p.fill(h, *progression(p, h))
        if prop in ("C16", "C19"):
            p.fuse = "fuse" if prop == "C16" else "fusec"
            deep_fused(p, h)
    if r.random() < 0.4 and not huge:
        deep_drain(p, 0)
        deep_reads(p, 0, prop)
    if prop in ("C03", "C09") and p.kind[0] != "map":
        p.into(0, 0)
        p.consume(0, (), steps=r.choice((0, 5, 50, 200)))
    p.end()
    return p


VAST = 2275000     # so many entries, inserted in order, give nodes of 64 a fifth level
VAST_PROPS = ("C01", "C05", "C06", "C08", "C12", "C15", "C17", "C18")


def vast_reads(p, h, prop):
    """few: every one costs TLC about a second"""
    r, kind = p.rng, p.kind[h]
    lo, n, step = progression(p, h)
    n = min(n, 1000)
    p.emit("probe", h, lo, n, step)
    if kind != "set":
        p.emit("root", h)
        visit(p, h)
    if kind != "set" and p.aug == "count":
        p.emit("ranks", h, min(lo, lo + (n - 1) * step), n, abs(step))
    elif kind != "set" and p.aug in ("hash", "khash"):
        p.emit("ats", h, lo if step > 0 else lo + (n - 1) * step, n, abs(step))
    if kind == "tree":
        p.emit("cget", h, 0, p.rkey(h))
        p.emit("cwalk", h, 0, r.choice((1, 65, 2000)), r.randint(0, 1))
    p.emit("len", h)


def vast(prop, seed, n):
    """a tree of five levels of nodes of 64 (more than two million entries)"""
    r = random.Random(f"vast/{prop}/{seed}/{n}")
    u = VAST + r.randint(0, 60000)
    aug = r.choice(DEEP_AUGS.get(prop, ("unit", "count", "hash", "khash")))
    p = Prog(r, n, u, combo(aug), "i", aug)
    kind = r.choice(DEEP_KINDS.get(prop, ("map", "tree")))
    p.new(0, kind)
    p.fill(0, *((u, u, -1) if r.random() < 0.5 else (1, u, 1)))
    if prop != "C15":
        vast_reads(p, 0, prop)
    m = r.choice((300, 2000, 10000))
    lo = r.choice((1, u // 2, u - m + 1, r.randint(1, u - m)))
    p.wipe(0, *((lo, m, 1) if r.random() < 0.5 else (lo + m - 1, m, -1)))
    vast_reads(p, 0, prop)
    if prop == "C17" and r.random() < 0.5:
        p.clear(0)
    else:
        m = r.choice((0, 1, 40, 3000))      # what stays
        p.wipe(0, *((u, u - m, -1) if r.random() < 0.5 else (1, u - m, 1)))
    p.emit("len", 0)
    p.fill(0, 1, 500, 3)
    vast_reads(p, 0, prop)
    p.end()
    return p


def deep_parallel(p, h):
    r = p.rng
    parallel(p, [h], r.choice((2, 3, 4)), r.choice((5, 30)))


def deep_fused(p, h):
    """calls whose n-th comparison panics: they change nothing, or get through"""
    r = p.rng
    for _ in range(r.randint(1, 5)):
        k = p.rkey(h)
        for j in sorted(r.sample(range(1, 30), r.randint(1, 6))):
            p.fusing = j
            x = r.random()
            if x < 0.4:
                raw_put(p, h, k)
            elif x < 0.8:
                p.emit("sdel" if p.kind[h] == "set" else "del", h, k)
            else:
                p.emit("member", h, k)
            p.fusing = 0
        p.emit("len", h)
        p.unsure = k
        settle(p, h)


PROFILES = {f"C{i:02d}": globals()[f"c{i:02d}"] for i in range(1, 21)}


def program(prop, seed, n, ops):
    rng = random.Random(f"{prop}/{seed}/{n}/{ops}")
    return PROFILES[prop](rng, n, ops)
