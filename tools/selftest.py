#!/usr/bin/env python3
"""Is the conformance check able to say no?  Records executions, changes one answer in each, and has TLC
check them: every changed execution must be rejected at the changed event, every unchanged one accepted.

  selftest.py [--seed N] [--count N] C01 C02 ...        Not used by any check.
"""
import copy
import json
import os
import random
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402
import gen  # noqa: E402
import plans  # noqa: E402


def corrupt(rng, e):
    """another answer, or None when there is nothing to change"""
    e = copy.deepcopy(e)
    what = []
    if e.get("r"):
        what += ["r"] * 3
    if "r" in e and e["op"] not in ("visit",):
        what.append("longer")
    if "own" in e:
        what += ["own", "dv"]
    if e["op"] == "shape" and e.get("nodes"):
        what += ["aug", "keys"]
    if not what:
        return None
    w = rng.choice(what)
    if w == "r":
        i = rng.randrange(len(e["r"]))
        if e["op"] in ("ilen",) and len(e["r"]) == 2:      # bounds of a union: only wrong ones
            e["r"][0] = e["r"][1] + 1
        elif rng.random() < 0.3:
            e["r"].pop(i)
        else:
            e["r"][i] += rng.choice((-1, 1))
        if e["op"] == "visit":
            return None
    elif w == "longer":
        e["r"].append(rng.randint(0, 3))
    elif w == "own":
        e["own"][2] += rng.choice((-1, 1))
    elif w == "dv":
        e["dv"] = e["dv"][1:] if e.get("dv") else [999999]
    elif w == "aug":
        inner = [x for x in e["nodes"] if x and x.get("augs") and x["augs"][0]]
        if not inner:
            return None
        x = rng.choice(inner)
        a = rng.choice(x["augs"])
        a[rng.randrange(len(a))] += 1
    elif w == "keys":
        x = rng.choice([x for x in e["nodes"] if x])
        if len(x["keys"]) < 2:
            return None
        x["keys"][0], x["keys"][1] = x["keys"][1], x["keys"][0]
    e["how"] = w
    return e


def relevant(plan, e):
    w = e["how"]
    if w in ("own", "dv"):
        return "own" in plan["extra"]
    if w == "aug":
        return "augs" in plan["extra"]
    if w == "keys":
        return "balance" in plan["extra"]
    return e["op"] in plan["judge"] and not (e["op"] == "ilen" and w == "longer")


def selftest(prop, seed, count):
    plan = plans.plan(prop, "quick")
    bins = check.build_all([4, 8, 64], plan["threads"])
    rng = random.Random(f"{prop}/{seed}")
    tmp = tempfile.mkdtemp(prefix="selftest-")
    traces, expect = [], {}
    for n in (4, 8, 64):
        for i in range(4):
            text = gen.program(prop, f"self{seed}/{i}", n, 150).text()
            tr = check.execute(bins[n], text, f"{n}-{i}")
            traces.append(tr)
            at = list(range(len(tr["ev"])))
            rng.shuffle(at)
            made = 0
            for j in at:
                e = corrupt(rng, tr["ev"][j])
                if e is None or not relevant(plan, e):
                    continue
                t = dict(tr, id=f"{n}-{i}-at{j}-{e['how']}-{e['op']}", ev=tr["ev"][:j] + [e])
                traces.append(t)
                expect[t["id"]] = j + 1
                made += 1
                if made >= count // 12:
                    break
    recs = []
    for t in traces:
        f = os.path.join(tmp, t["id"] + ".json")
        open(f, "w").write(json.dumps(t) + "\n")
        recs.append(dict(id=t["id"], events=len(t["ev"]), file=f))
    bad, _, _ = check.validate(recs, plan, tmp)
    got = {b["id"]: b["at"] for b in bad}
    missed = [i for i in expect if got.get(i) != expect[i]]
    false = [i for i in got if i not in expect]
    print(prop, len(expect), "changed answers,", len(expect) - len(missed), "rejected at the changed event; missed:", missed[:8], "; wrongly rejected:", false[:5], flush=True)
    return not missed and not false


if __name__ == "__main__":
    a = sys.argv[1:]
    seed, count = 1, 240
    if "--seed" in a:
        i = a.index("--seed")
        seed = int(a[i + 1])
        del a[i:i + 2]
    if "--count" in a:
        i = a.index("--count")
        count = int(a[i + 1])
        del a[i:i + 2]
    props = a or [f"C{i:02d}" for i in range(1, 21)]
    sys.exit(0 if all([selftest(p, seed, count) for p in props]) else 1)
