#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property on /repo's current tree.

Exit 0: every query was answered and no assertion can fail within the bounds.
Exit 1: a counterexample was found and it reproduces in the native build (VIOLATION line).
Exit 2: no answer (build failure, unsupported code, time out, counterexample that does not reproduce)."""
import concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from table import TABLE, BOUNDS, OUTSIDE, RECORDED_ON

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
NATIVE_HANG_S = 20


def known_findings(prop):
    """lines `finding: property=<id> entry=<entry> label=<label> :: <what fails>`"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: ") and f"property={prop} " in line:
                head, _, what = line[len("finding: "):].strip().partition(" :: ")
                f = dict(p.split("=", 1) for p in head.split(" ", 2) if "=" in p)
                out.append((f.get("entry"), f.get("label"), what, line.strip()))
    return out


QUICK_S = 700  # a quick check has 900 s


def run_entry(prop, e, work, thorough, workers, t0):
    """run the executor on one entry"""
    if thorough:
        deadline = e.get("deadline", 1800)
    else:
        deadline = max(20, min(e.get("deadline", 480), int(t0 + QUICK_S - time.time())))
    name = e["entry"]
    d = os.path.join(work, name)
    os.makedirs(os.path.join(d, "tmp"))
    paths = os.path.join(d, "paths")
    out = os.path.join(d, "out.json")
    cmd = [build.ENGINE, build.IR, name, "--out", out, "--paths", paths, "--tmp", os.path.join(d, "tmp"),
           "--workers", str(workers), "--deadline", str(deadline),
           "--steps", str(e.get("steps", 30_000_000)), "--alloc", str(e.get("alloc", 1 << 20)),
           "--keep", str(e.get("keep", 20000 if not thorough else 60000))]
    if "enum" in e:
        cmd += ["--enum", str(e["enum"])]
    if thorough:
        cmd += ["--rlimit", "200000000"]
        os.makedirs(os.path.join(d, "smt"))
        cmd += ["--dump", os.path.join(d, "smt"), "--dump-every", str(e.get("dump_every", 97))]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    if not os.path.exists(out):
        return dict(entry=name, error=f"executor ended with {r.returncode}: {r.stderr[-2000:]}")
    res = json.load(open(out))
    res["error"] = None
    if r.returncode not in (0, 1):
        res["error"] = f"executor ended with {r.returncode}: {r.stderr[-2000:]}"
    res["paths_file"] = paths
    res["dir"] = d
    return res


def native_one(prog, entry, hexin):
    try:
        r = subprocess.run([prog, "one", entry, hexin], capture_output=True, text=True, errors="replace",
                           timeout=NATIVE_HANG_S)
    except subprocess.TimeoutExpired:
        return f"hang: still running after {NATIVE_HANG_S} s"
    if r.returncode < 0:
        return f"killed by signal {-r.returncode}"
    if r.returncode != 0:
        return f"ended with {r.returncode} {r.stderr[-300:]}"
    return r.stdout.strip().split(" ", 1)[1] if " " in r.stdout.strip() else r.stdout.strip()


def native_paths(prog, entry, paths):
    """replay the recorded paths; (number, mismatches, lines)"""
    if not os.path.exists(paths) or os.path.getsize(paths) == 0:
        return 0, 0, []
    # a replay has 1000 times the time it needs; what it does not finish is not counted
    try:
        r = subprocess.run([prog, "paths", entry, paths], capture_output=True, text=True, errors="replace",
                           timeout=300)
    except subprocess.TimeoutExpired:
        return 0, 1, ["the native replay did not end"]
    lines = r.stdout.strip().split("\n")
    if r.returncode != 0 or not lines[-1].startswith("REPLAYED"):
        return 0, 1, [f"the native replay ended with {r.returncode}: {(r.stdout + r.stderr)[-500:]}"]
    w = lines[-1].split()
    return int(w[1]), int(w[3]), [x for x in lines if x.startswith("MISMATCH")]


def failing_replays(prog, entry, lines):
    """Inputs of paths on which the executor's models let the assertions hold and the real code does not: the real code's
    answer counts. (Its hashing and sockets are modelled, so this can happen.) Only if it fails every time."""
    out = []
    for l in lines:
        w = l.split(" ", 4)
        if len(w) == 5 and w[4] not in ("ok", "assume", "short"):
            nat = {p: native_one(x, entry, w[1]) for p in build.REPLAYS for x in [build.REPLAYS[p]]}
            if all(x not in ("ok", "assume", "short") for x in nat.values()) and native_one(prog, entry, w[1]) == w[4]:
                kind, _, msg = w[4].partition(" ")
                out.append((entry, dict(kind=kind, msg=msg, input=w[1], trace=["seen in the native replay of a path"]), nat))
                break
    return out


def second_opinion(d):
    """thorough: the dumped queries again, with two other solvers"""
    n = dis = unk = 0
    files = sorted(glob.glob(os.path.join(d, "smt", "*.smt2")))[:400]

    def one(f):
        text = open(f).read()
        want = text.split("\n", 1)[0].replace(";", "").strip().split()[-1]
        got = []
        for cmd in (["cvc5", "--lang=smt2", "--tlimit=20000", f], ["z3-new", "-T:20", f]):
            r = subprocess.run(cmd, capture_output=True, text=True)
            a = [x for x in r.stdout.split("\n") if x in ("sat", "unsat", "unknown")]
            got.append(a[-1] if a else "unknown")
        return f, want, got

    with cf.ThreadPoolExecutor(8) as ex:
        for f, want, got in ex.map(one, files):
            for g in got:
                n += 1
                if "unknown" in (g, want):
                    unk += 1
                elif g != want:
                    dis += 1
    return n, dis, unk


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    ev_path = os.path.join(EVID, f"{prop}.json")
    for old in glob.glob(os.path.join(EVID, f"{prop}.json")) + glob.glob(os.path.join(EVID, f"{prop}-violation-*.json")):
        os.remove(old)
    entries = [e for e in TABLE[prop] if thorough or e.get("tier", "quick") == "quick"]
    with build.lock():
        try:
            build.engine()
            tree, build_s = build.harness()
        except build.BuildError as e:
            print(f"NO ANSWER property={prop}: {e}")
            sys.exit(2)
        work = tempfile.mkdtemp(prefix=f"work-{prop}-", dir=build.BUILD)
        try:
            code = decide(prop, entries, thorough, tier, seed, t0, tree, build_s, work, ev_path)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, entries, thorough, tier, seed, t0, tree, build_s, work, ev_path):
    with cf.ThreadPoolExecutor(2 if thorough else 4) as ex:
        res = list(ex.map(lambda e: run_entry(prop, e, work, thorough, 8 if thorough else 4, t0), entries))
    known = known_findings(prop)
    noans, viols, seen_known, notes = [], [], [], []
    repo_hash = build.repo_hash()
    tot = {}
    per, samples, fns, modelled, lines = [], [], set(), set(), {}
    validated = 0
    opinion = [0, 0, 0]
    for e, r in zip(entries, res):
        name = e["entry"]
        if r.get("error"):
            noans.append(f"{name}: {r['error']}")
        if "stats" not in r:
            continue
        if r["stopped"]:
            noans.append(f"{name}: stopped before every path was followed")
        for k, n in r["problems"].items():
            noans.append(f"{name}: not decided on {n} paths: {k}")
        if r["stats"]["unknown"]:
            noans.append(f"{name}: {r['stats']['unknown']} queries without an answer")
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_ns" else tot.get(k, 0) + v
        fns.update(r["functions"])
        modelled.update(r["modelled"])
        for l in r["lines"]:
            lines[l] = 1
        real = []
        for v in r["violations"]:
            nat = {p: native_one(build.REPLAYS[p], name, v["input"]) for p in build.REPLAYS}
            bad = {p: x for p, x in nat.items() if x not in ("ok", "assume", "short")}
            k = [f for f in known if f[0] == name and f[1] == v["msg"]]
            if not bad:
                noans.append(f"{name}: counterexample {v['kind']} '{v['msg']}' input={v['input']} does not "
                             f"reproduce natively ({nat})")
            elif k:
                seen_known.append((k[0][2], v))
            else:
                real.append((v, nat))
        viols += [(name, v, nat) for v, nat in real]
        n = 0
        if not r["violations"]:
            for p, prog in build.REPLAYS.items():
                k, mm, ls = native_paths(prog, name, r["paths_file"])
                n += k
                fails = failing_replays(prog, name, ls)
                viols += fails
                if mm and not fails:
                    noans.append(f"{name}: {mm} paths differ between the executor and the {p} build: {ls[:2]}")
            validated += n
            want, got = set(e.get("covers", ())), set(r["covers"])
            if not want <= got:
                text = f"{name}: cases {sorted(want - got)} were never reached"
                # other code may order things such that a case no longer comes up; on the tree on which the cases were
                # recorded, or when none of them comes up, the entry decides nothing
                if not want & got or RECORDED_ON in (None, repo_hash):
                    noans.append("vacuous: " + text)
                else:
                    notes.append(text)
            if r["paths"].get("ok", 0) == 0 or not r["labels"]:
                noans.append(f"{name}: vacuous: no path reached an assertion")
        if thorough:
            o = second_opinion(r["dir"])
            opinion = [a + b for a, b in zip(opinion, o)]
            if o[1]:
                noans.append(f"{name}: another solver disagrees on {o[1]} queries")
        per.append(dict(entry=name, what=e.get("what", ""), paths=r["paths"], covers=r["covers"],
                        queries=r["stats"]["queries"], decided_by_solver=r["stats"]["z3"],
                        solver_s=round(r["stats"]["z3_ns"] / 1e9, 3), wall_s=r["wall_s"],
                        assertion_queries=r["stats"]["asserts"], replayed_natively=n,
                        assertions=len(r["labels"]), bound=e.get("bound", "")))
        try:
            ls = open(r["paths_file"]).read().split("\n")
            for l in (ls[0], ls[len(ls) // 2]):
                w = l.split(" ")
                if len(w) >= 3:
                    samples.append(dict(entry=name, input=w[0][:160], observed=w[1], steps=int(w[2])))
        except OSError:
            pass
    out_lines = []
    shown = {}
    for i, (name, v, nat) in enumerate(viols):
        key = (name, v["kind"], v["msg"])
        if key in shown:
            continue
        shown[key] = 1
        path = os.path.join(EVID, f"{prop}-violation-{len(shown)}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, entry=name, kind=v["kind"], message=v["msg"], input=v["input"], native=nat,
                           trace=v.get("trace"),
                           replay=f"{build.REPLAYS['dev']} one {name} {v['input']}"), f, indent=1)
        out_lines.append(f"VIOLATION property={prop} replay={path}  # {name}: {v['kind']} {v['msg']} "
                         f"input={v['input'][:120]} native={nat}")
    ok_paths = sum(r.get("paths", {}).get("ok", 0) for r in res if "stats" in r)
    from collections import Counter
    cov = dict(
        states=ok_paths + sum(v for r in res if "stats" in r for k, v in r["paths"].items() if k != "ok"),
        transitions=tot.get("steps", 0),
        traces_validated_against_impl=validated,
        samples=samples[:40],
        explanation="symbolic execution of the LLVM IR of the harness entries below, of /repo and of everything they "
                    "call: states are path ends (each stands for all inputs with its path condition), transitions are IR "
                    "instructions executed symbolically, traces are path inputs replayed in the native builds with the "
                    "same observed outcome",
        exhaustive=not noans,
        bounds=BOUNDS.get(prop, ""), outside_the_claim=OUTSIDE.get(prop, ""),
        entries=per,
        solver=dict(queries=tot.get("queries", 0), decided_by_z3=tot.get("z3", 0), decided_by_domain=tot.get("dom", 0),
                    answered_from_cache=tot.get("cached", 0), sat=tot.get("sat", 0), unsat=tot.get("unsat", 0),
                    unknown=tot.get("unknown", 0), seconds=round(tot.get("z3_ns", 0) / 1e9, 2),
                    slowest_query_s=round(tot.get("max_ns", 0) / 1e9, 3), assertion_queries=tot.get("asserts", 0),
                    assertion_queries_by_z3=tot.get("asserts_z3", 0)),
        functions_encoded=sorted({f.split("<")[0] for f in fns if f.startswith("/repo/")})[:260],
        repo_functions=len({f for f in fns if f.startswith("/repo/")}), all_functions=len(fns),
        repo_lines_executed=len(lines), modelled=sorted(modelled), tree=tree, build_s=round(build_s, 1))
    if thorough:
        cov["second_solvers"] = dict(answers=opinion[0], disagreements=opinion[1], unknown=opinion[2],
                                     solvers=["cvc5", "z3-new"])
    if seen_known:
        cov["known_findings"] = [k for k, _ in seen_known]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=[
                  "rustc lowers the harness's own profile (opt-level 1, overflow checks, panic=unwind) like the user's; "
                  "path inputs are replayed in the dev and an optimised profile",
                  "the memory allocator, the clock, random seeds, futexes and thread start are modelled; threads are not interleaved"],
              wall_s=round(time.time() - t0, 2), violations=len(shown))
    if noans:
        ev["coverage"]["no_answer"] = noans[:20]
    if notes:
        ev["coverage"]["cases_not_reached"] = notes[:20]
    text = json.dumps(ev, indent=1)
    while len(text) > 60000 and cov["functions_encoded"]:
        cov["functions_encoded"] = cov["functions_encoded"][:-20]
        cov["samples"] = cov["samples"][:8]
        text = json.dumps(ev, indent=1)
    with open(ev_path, "w") as f:
        f.write(text + "\n")
    for what, v in {k: v for k, v in seen_known}.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    for l in out_lines:
        print(l)
    if out_lines:
        return 1
    if noans:
        for n in noans[:20]:
            print(f"NO ANSWER property={prop}: {n}")
        return 2
    print(f"OK property={prop} tier={tier} entries={len(entries)} paths={ok_paths} queries={tot.get('queries', 0)} "
          f"assertions={tot.get('asserts', 0)} replayed={validated} in {time.time() - t0:.1f}s "
          f"(build {build_s:.1f}s)")
    return 0


if __name__ == "__main__":
    main()
