#!/usr/bin/env python3
"""Decides one property: builds the driver against /repo, produces executions, and has TLC check the
specification and the executions against it.

  check.py C05            quick (or VERIF_TIER)
  check.py C05 --tier thorough
  check.py --replay FILE  replays a recorded violation
  check.py --setup        builds and self-tests
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import gen  # noqa: E402
import plans  # noqa: E402
import walks  # noqa: E402

REPO = os.environ.get("SWEEP_REPO", "/repo")
BUILD = os.environ.get("SWEEP_BUILD") or os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


# ------------------------------------------------------------------------------------------ build

def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "driver", "src")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                path = os.path.join(d, f)
                h.update(os.path.relpath(path, base).encode())
                h.update(open(path, "rb").read())
    for f in (os.path.join(REPO, "Cargo.toml"), os.path.join(ROOT, "driver", "Cargo.toml")):
        h.update(open(f, "rb").read())
    h.update(REPO.encode())
    return h.hexdigest()[:16]


# capacity of a node -> build profile; assertions are compiled in for 4, as users have it for the others
PROFILE = {4: "debug", 8: "release", 64: "release"}


def cargo(n, threads, features=True):
    key = f"n{n}" + ("t" if threads else "")
    target = os.path.join(BUILD, tree_hash(), key)
    binary = os.path.join(target, PROFILE[n], "driver")
    if os.path.exists(binary) and os.path.exists(target + ".ok"):
        return binary
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    flags = "-Awarnings"
    if n != 64:
        flags += f' --cfg sweep_node_cap="{n}"'
    env["RUSTFLAGS"] = flags
    env.pop("CARGO_BUILD_RUSTFLAGS", None)
    src = os.path.join(ROOT, "driver")
    if REPO != "/repo":
        src = os.path.join(BUILD, tree_hash(), "src-" + key)
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(ROOT, "driver"), src, ignore=shutil.ignore_patterns("target"))
        toml = open(os.path.join(src, "Cargo.toml")).read().replace('"/repo"', json.dumps(REPO))
        open(os.path.join(src, "Cargo.toml"), "w").write(toml)
    cmd = ["cargo", "build", "--offline", "-q"]
    if PROFILE[n] == "release":
        cmd.append("--release")
    if threads:
        cmd += ["--features", "threads"]
    p = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("build failed: " + p.stderr[-3000:])
    open(target + ".ok", "w").write("")
    return binary


def clean_old_builds():
    if not os.path.isdir(BUILD):
        return
    keep = tree_hash()
    ds = [d for d in os.listdir(BUILD) if d != keep and re.fullmatch(r"[0-9a-f]{16}", d)]
    ds.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in ds[:-2]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


def build_all(ns, threads=False):
    clean_old_builds()
    os.makedirs(os.path.join(BUILD, tree_hash()), exist_ok=True)
    with cf.ThreadPoolExecutor(len(ns)) as ex:
        return dict(zip(ns, ex.map(lambda n: cargo(n, threads), ns)))


# ---------------------------------------------------------------------------------------- programs

def parse_program(text):
    """header dict and the operations in the order in which the driver answers them"""
    lines = [x for x in text.splitlines() if x.strip() and not x.startswith("#")]
    head = dict(w.split("=", 1) for w in lines[0].split()[1:])
    ops, par = [], False
    for ln in lines[1:]:
        t = ln.split()
        if t[0] == "par":
            par = True
            continue
        if t[0] == "endpar":
            par = False
            continue
        if par:
            t = t[1:]
        elif t[0] in ("fuse", "fusec"):
            t = t[2:]
        ops.append((t[0], [int(x) for x in t[1:]]))
    return head, ops


def describe(e, op, a):
    e["op"], e["a"] = op, a
    if op == "bulk":
        e["a"] = a[:2]
        e["items"] = [[k, 1 if a[1] == 1 else v] for k, v in zip(a[2::2], a[3::2])]
    return e


def execute(binary, text, ident, timeout=20):
    """runs one program; returns the trace record for TLC"""
    tr = execute_once(binary, text, ident, timeout)
    if tr["ev"] and tr["ev"][-1].get("f") == "hang":      # make sure that it is not the machine that is slow
        tr = execute_once(binary, text, ident, 3 * timeout)
    return tr


def limits():
    """a driver that eats memory without end is a crash, and must not take others with it"""
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute_once(binary, text, ident, timeout):
    head, ops = parse_program(text)
    with tempfile.NamedTemporaryFile("w", suffix=".prog", delete=False) as f:
        f.write(text)
        path = f.name
    flag = None
    try:
        p = subprocess.Popen([binary, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits)
        try:
            out, err = p.communicate(timeout=timeout)
            if p.returncode == 3 or p.returncode == 4:
                raise ToolError(f"driver refused {ident}: {err.strip()[-300:]}\n{text[:200]}")
            if p.returncode != 0:
                flag = "crash"
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            flag = "hang"
    finally:
        os.unlink(path)
    ev = []
    rows = out.split("\n")
    for (op, a), row in zip(ops, rows):
        if not row:
            break
        try:
            e = json.loads(row)
        except ValueError:
            break
        describe(e, op, a)
        e.pop("m", None)
        ev.append(e)
        if e.get("f") == "panic":
            break
    if (not ev or ev[-1].get("f") != "panic") and len(ev) < len(ops):
        op, a = ops[len(ev)]
        ev.append(describe(dict(f=flag or "crash"), op, a))
    aug = {"groups": "group", "tracked": "count"}.get(head["aug"], head["aug"])
    u = int(head["u"])
    grp = [int(x) for x in head["grp"].split(",")] if "grp" in head else [1] * u
    return dict(id=ident, u=u, grp=grp, aug=aug, n=int(head["n"]), ev=ev)


def one(job):
    """worker: make (or take) a program, run it, write its trace"""
    ident, prop, seed, n, ops, text, binary, out = job
    if isinstance(text, dict):
        text = walks.program(prop, text, seed).text()
    elif text == "vast":
        text = gen.vast(prop, seed, n).text()
    elif text in ("deep", "huge"):
        text = gen.deep(prop, seed, n, text == "huge").text()
    elif text is None:
        text = gen.program(prop, seed, n, ops).text()
    try:
        tr = execute(binary, text, ident)
    except ToolError as e:
        return dict(error=str(e))
    with open(out, "w") as f:
        f.write(json.dumps(tr, separators=(",", ":")) + "\n")
    with open(out + ".prog", "w") as f:
        f.write(text)
    counts = {}
    for e in tr["ev"]:
        counts[e["op"]] = counts.get(e["op"], 0) + 1
    depth = max([x["d"] for e in tr["ev"] if e["op"] == "shape" for x in e.get("nodes", []) if x] + [0])
    return dict(id=ident, n=n, events=len(tr["ev"]), file=out, counts=counts, depth=depth,
                hang=bool(tr["ev"]) and tr["ev"][-1].get("f") == "hang",
                fused=sum(1 for e in tr["ev"] if e.get("f") == "fused"))


# --------------------------------------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workers=CPUS, args=(), mem="8g", timeout=800, cwd=None):
    meta = tempfile.mkdtemp(prefix="tlc-meta-")
    cwd = cwd or SPEC
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(
            ["java", f"-Xmx{mem}", "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
             "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module],
            cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        raise ToolError(f"TLC timed out on {module}: {(x.stdout or b'')[-500:]}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return None
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def set_of(xs):
    return "{" + ", ".join(json.dumps(x) if isinstance(x, str) else str(x) for x in sorted(xs)) + "}"


def write_cfg(path, plan):
    with open(path, "w") as f:
        f.write(f"""INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Handles = {{0, 1, 2, 3}}
  CursorIds = {{0, 1, 2, 3, 4, 5}}
  IterIds = {{0, 1, 2, 3}}
""" + ("" if plan["oracle"] != "TraceCheck" else f"""  Judged = {set_of(plan["judge"])}
  JudgeOwn = {str("own" in plan["extra"]).upper()}
  JudgeSafe = {str("safe" in plan["extra"]).upper()}
  JudgeAugs = {str("augs" in plan["extra"]).upper()}
  JudgeBalance = {str("balance" in plan["extra"]).upper()}
"""))


def weigh(t):
    """events, or what their JSON text amounts to"""
    return max(t["events"], os.path.getsize(t["file"]) // 500)


def validate(traces, plan, tmp):
    """TLC over the recorded executions; returns (violations, states, transitions)"""
    path = os.path.join(tmp, "traces.ndjson")
    with open(path, "w") as f:
        for t in traces:
            with open(t["file"]) as g:
                f.write(g.read())
    cfg = os.path.join(tmp, plan["oracle"] + ".cfg")
    write_cfg(cfg, plan)
    rc, out = tlc(plan["oracle"] + ".tla", cfg, dict(TRACES=path), args=("-maxSetSize", "4000000"))
    if "Model checking completed. No error has been found." not in out:
        raise ToolError("TLC failed on the traces: " + out[-3000:])
    bad = []
    for m in re.finditer(r'^"BAD (.*)"$', out, re.M):
        bad.append(json.loads(json.loads('"' + m.group(1) + '"')))
    gen_, dist = tlc_counts(out)
    stopped = {b["id"]: b["at"] for b in bad}
    want = sum(1 + stopped.get(t["id"], t["events"]) for t in traces)
    if dist != want:
        raise ToolError(f"TLC stepped through {dist} states, expected {want}: a trace does not fit the specification\n" + out[-1500:])
    return bad, dist, dist - len(traces)


# ------------------------------------------------------------------------------------------- models

def run_model(m):
    t = time.time()
    rc, out = tlc(m["module"], os.path.join(SPEC, m["cfg"]), workers=m.get("workers", 4), args=m.get("args", ()),
                  timeout=m.get("timeout", 800), mem=m.get("mem", "6g"))
    ok = "Model checking completed. No error has been found." in out
    if not ok and not m.get("sim"):
        raise ToolError(f"the specification {m['module']} with {m['cfg']} fails its own properties:\n" + out[-3000:])
    c = tlc_counts(out) or (0, 0)
    return dict(module=m["module"], cfg=m["cfg"], states=c[1], transitions=c[0], wall_s=round(time.time() - t, 1))


# ---------------------------------------------------------------------------------------------- main

def save_replay(prop, b, trace, note):
    d = os.path.join(ROOT if REPO == "/repo" else BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    text = open(trace["file"] + ".prog").read()
    path = os.path.join(d, f"{prop}-{trace['id']}.txt")
    with open(path, "w") as f:
        f.write(f"# property {prop}; nodes of capacity {trace['n']}\n")
        f.write(f"# operation {b['at']} ({b['op']}): {b['verdict']}; specification: {b['want']} implementation: {b['got']}\n")
        f.write(f"# {note}\n")
        f.write(text)
    return path


def known_findings():
    path = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"known: property=(\S+) (.*)$", ln)
            if m:
                out.append((m.group(1), m.group(2).strip()))
    return out


def check(prop, tier, seed):
    t0 = time.time()
    plan = plans.plan(prop, tier)
    evidence = os.path.join(ROOT if REPO == "/repo" else BUILD, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    threads = plan.get("threads", False)
    tmp = tempfile.mkdtemp(prefix=f"chk-{prop}-")
    bad, models, traces, rounds = [], [], [], 0
    states = transitions = 0
    violation = None
    try:
        try:
            bins = build_all(sorted(plan["runs"]), threads)
        except ToolError:
            if not threads:
                raise
            build_all(sorted(plan["runs"]), False)      # it builds when nothing is shared between threads
            violation = ("build", "the collections cannot be shared between threads any more")
            bins = None
        with cf.ProcessPoolExecutor(CPUS) as ex, cf.ThreadPoolExecutor(2) as mex:
            mfut = [mex.submit(run_model, m) for m in plan["models"]]
            if bins:
                jobs = []
                for n, groups in plan["runs"].items():
                    i = 0
                    for count, ops in groups:
                        for _ in range(count):
                            ident = f"{prop}-n{n}-s{seed}-{i}"
                            jobs.append((ident, prop, f"{seed}/{i}", n, ops, None, bins[n], os.path.join(tmp, ident + ".json")))
                            i += 1
                for kind, n, i in [(k, n, i) for k in ("vast", "huge", "deep") for n, count in plan[k].items() for i in range(count)]:
                    ident = f"{prop}-{kind}{n}-s{seed}-{i}"
                    jobs.append((ident, prop, f"{seed}/{i}", n, 0, kind, bins[n], os.path.join(tmp, ident + ".json")))
                for ident, n, walk in plans.walk_programs(prop, tier, seed, SPEC, tlc):
                    jobs.append((ident, prop, seed, n, 0, walk, bins[n], os.path.join(tmp, ident + ".json")))
                futs = [ex.submit(one, j) for j in jobs]
                for f in futs:
                    if f.cancelled():
                        continue
                    r = f.result()
                    if "error" in r:
                        for g in futs:
                            g.cancel()
                        raise ToolError(r["error"])
                    traces.append(r)
                    if r["hang"]:       # no point in waiting for the others to hang as well
                        for g in futs:
                            g.cancel()
                batch, size = [], 0
                for t in traces + [None]:
                    if batch and (t is None or size + weigh(t) > plans.BATCH):
                        b, s, tr = validate(batch, plan, tmp)
                        bad += b
                        states += s
                        transitions += tr
                        rounds += 1
                        batch, size = [], 0
                        if bad:
                            break
                    if t:
                        batch.append(t)
                        size += weigh(t)
            models = [f.result() for f in mfut]
        byid = {t["id"]: t for t in traces}
        sample = []
        for t in traces[:: max(1, len(traces) // 3)][:3]:
            sample.append(dict(id=t["id"], program="; ".join(open(t["file"] + ".prog").read().split("\n")[:26])[:1500]))
        out = []
        if violation:
            d = os.path.join(ROOT if REPO == "/repo" else BUILD, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-build.txt")
            open(path, "w").write("# cargo build --features threads in /verif/driver: " + violation[1] + "\n")
            out.append(f"VIOLATION property={prop} replay={path}")
            print(violation[1])
        known = [k for k in known_findings() if k[0] == prop]
        for k in known:
            print(f"KNOWN-FINDING: property={prop} {k[1]}")
        bad.sort(key=lambda b: b["at"])
        for b in bad[:5]:
            path = save_replay(prop, b, byid[b["id"]], "check.py --replay " + prop)
            print(f"{b['id']} operation {b['at']} {b['op']}: {b['verdict']}; specification {str(b['want'])[:200]} implementation {str(b['got'])[:200]}")
            out.append(f"VIOLATION property={prop} replay={path}")
        counts = {}
        for t in traces:
            for k, v in t["counts"].items():
                counts[k] = counts.get(k, 0) + v
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1), coverage=dict(
            states=states + sum(m["states"] for m in models),
            transitions=transitions + sum(m["transitions"] for m in models),
            traces_validated_against_impl=len(traces) - len({b["id"] for b in bad}),
            trace_events=sum(t["events"] for t in traces),
            judged_operations={k: v for k, v in sorted(counts.items()) if k in plan["judge"] or k == "shape" and plan["extra"]},
            other_operations={k: v for k, v in sorted(counts.items()) if not (k in plan["judge"] or k == "shape" and plan["extra"])},
            calls_that_panicked=sum(t["fused"] for t in traces),
            deepest_tree_seen=max([t["depth"] for t in traces] + [0]),
            traces_by_node_capacity={str(n): sum(1 for t in traces if t["n"] == n) for n in sorted(plan["runs"])},
            models=models, violations=[dict(id=b["id"], at=b["at"], op=b["op"], verdict=b["verdict"]) for b in bad[:20]],
            samples=sample))
        json.dump(ev, open(evidence, "w"), indent=1)
        for x in out:
            print(x)
        print(f"{prop} {tier}: {len(traces)} executions, {sum(t['events'] for t in traces)} operations, {states} states, "
              f"{len(models)} models, {len(bad)} violations, {time.time() - t0:.1f} s")
        return 1 if out else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    text = open(path).read()
    m = re.search(r"# property (\S+); nodes of capacity (\d+)", text)
    prop, n = m.group(1), int(m.group(2))
    plan = plans.plan(prop, "quick")
    bins = build_all([n], plan.get("threads", False))
    tmp = tempfile.mkdtemp(prefix="replay-")
    try:
        r = one(("replay", prop, 0, n, 0, text, bins[n], os.path.join(tmp, "t.json")))
        if "error" in r:
            raise ToolError(r["error"])
        bad, _, _ = validate([r], plan, tmp)
        for b in bad:
            print(json.dumps(b)[:2000])
            print(f"VIOLATION property={prop} replay={path}")
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if a[0] == "--setup":
            build_all([4, 8, 64])
            build_all([4, 8, 64], True)
            return 0
        if a[0] == "--replay":
            return replay(a[1])
        return check(a[0], tier, seed)
    except ToolError as e:
        print("tool error:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
