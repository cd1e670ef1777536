#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE] [--scale F] [--keep-build DIR]

Builds the harness from /repo's working tree, runs the check of one property in several processes, merges their results,
writes evidence/<property>.json and says how it ended: exit 0 (held on everything explored), exit 1 and a line
'VIOLATION property=<id> replay=<path>' (broken), anything else (the check itself did not work)."""
import argparse, collections, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVELS = {"C15": "fault_enumeration", "C16": "fault_enumeration"}
REPO_FRAME = re.compile(r"^\s*github\.com/takenet/deckard", re.M)


def known_findings():
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


NEEDS_SERVER = {"C34", "C35"}


def build(out, kind=None):
    env = dict(os.environ)
    cmd = [os.path.join(HERE, "bin/build.sh"), out] + ([kind] if kind else [])
    p = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        print("the harness does not build:\n" + p.stdout[-3000:] + p.stderr[-6000:])
        sys.exit(3)


def classify_crash(text):
    """A dead process is a violation only if the code under test is what ended it."""
    if "WARNING: DATA RACE" in text:
        report = text[text.index("WARNING: DATA RACE"):][:8000]
        if REPO_FRAME.search(report):
            return "data race", report
        return None, report
    for mark in ("fatal error: concurrent map", "fatal error: all goroutines are asleep", "panic: ", "fatal error: "):
        if mark in text:
            report = text[text.index(mark):][:8000]
            first = report.split("\n\n")[1] if "\n\n" in report else report
            if "out of memory" in report[:200]:
                return None, report
            m = re.search(r"^(github\.com/takenet/deckard|main\.)", first, re.M)
            if m and m.group(0) != "main.":
                return mark.strip(), report
            return None, report
    return None, text[-4000:]


def blocked_in_repo(text):
    """Whether a goroutine dump shows a goroutine of deckard waiting for a lock or channel for minutes."""
    for g in re.split(r"\n\n", text):
        if re.match(r"goroutine \d+ \[(sync\.\w+\.\w+|semacquire|chan send|chan receive)[^\]]*, \d+ minutes", g.strip()) and \
                re.search(r"deckard/internal/(?!zzverif)(queue|service|audit|shutdown|metrics|config)", g):
            return g
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--build")
    ap.add_argument("--workers", type=int, default=0)
    a = ap.parse_args()
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tmp = tempfile.mkdtemp(prefix="vcheck-")
    try:
        return run(a, seed, tmp, start)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)


def run(a, seed, tmp, start):
    out = a.build or os.path.join(tmp, "build")
    if a.replay:
        rp = json.load(open(a.replay))
        israce = bool(rp.get("race"))
        build(out, "race" if israce else None)
        if a.prop in NEEDS_SERVER:
            build(out, "server")
        p = subprocess.run([os.path.join(out, "harness" + ("-race" if israce else "")), "-prop", a.prop, "-replay", a.replay])
        if p.returncode not in (0, 3):
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        return p.returncode
    build(out)
    if a.prop in NEEDS_SERVER:
        build(out, "server")
    meta = {l.split()[0]: l.split() for l in subprocess.run([os.path.join(out, "harness"), "-prop", "list"], capture_output=True, text=True).stdout.splitlines()}
    if a.prop not in meta:
        print("unknown property", a.prop)
        return 3
    race, plain = int(meta[a.prop][2]) > 0, int(meta[a.prop][1]) > int(meta[a.prop][2])
    if race:
        build(out, "race")
    workers = a.workers or min(8, os.cpu_count() or 8)
    limit = 780 if a.tier == "quick" else 6 * 3600
    results, problem = [], None
    for israce in ([False] if plain else []) + ([True] if race else []):
        procs = []
        for w in range(workers):
            d = os.path.join(tmp, "w%d%s" % (w, "r" if israce else ""))
            os.makedirs(d)
            cmd = [os.path.join(out, "harness" + ("-race" if israce else "")), "-prop", a.prop, "-tier", a.tier, "-seed", str(seed),
                   "-worker", str(w), "-workers", str(workers), "-dir", d, "-out", os.path.join(d, "result.json"), "-scale", a.scale]
            if israce:
                cmd.append("-racebuild")
            env = dict(os.environ, GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all", TMPDIR=d, GOMAXPROCS="2" if not israce else "4")
            log = open(os.path.join(d, "log"), "w")
            procs.append((w, d, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=d, start_new_session=True)))
        for w, d, p in procs:
            try:
                p.wait(timeout=max(1, limit - (time.time() - start)))
            except subprocess.TimeoutExpired:
                p.send_signal(signal.SIGQUIT)
                try:
                    p.wait(timeout=10)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                text = open(os.path.join(d, "log"), errors="replace").read()
                g = blocked_in_repo(text)
                if g:
                    problem = problem or ("violation", "deadlock", g, d, israce)
                else:
                    problem = problem or ("error", "out of time", text[-4000:], d, israce)
                continue
            res = os.path.join(d, "result.json")
            if p.returncode == 0 and os.path.exists(res):
                r = json.load(open(res))
                r["race"] = israce
                results.append(r)
                if r.get("Error"):
                    problem = problem or ("error", "error", r["Error"], d, israce)
                continue
            text = open(os.path.join(d, "log"), errors="replace").read()
            kind, report = classify_crash(text)
            if kind:
                if problem is None or problem[0] == "error":
                    problem = ("violation", kind, report, d, israce)
            else:
                problem = problem or ("error", "the check ended with %s" % p.returncode, report, d, israce)
        for w, d, p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
    # merge
    known = known_findings()
    violation = None
    for r in results:
        if r.get("Violation") and (violation is None or len(json.dumps(r["Violation"]["Case"])) < len(json.dumps(violation["Case"]))):
            violation = dict(r["Violation"], race=r["race"])
    seen = {}
    for r in results:
        for k, t in (r.get("Known") or {}).items():
            seen[k] = t
    for k, t in sorted(seen.items()):
        if (a.prop, k) in known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, known[(a.prop, k)]))
        elif violation is None:
            violation = {"Sub": "probe " + k, "Message": t, "Case": {"probe": k}, "Trace": [], "Props": [a.prop], "race": False}
    if violation is None and problem and problem[0] == "violation":
        cur = os.path.join(problem[3], "current.json")
        c = json.load(open(cur)) if os.path.exists(cur) and os.path.getsize(cur) else {"sub": "?", "case": None}
        violation = {"Sub": c["sub"], "Message": problem[1] + "\n" + problem[2], "Case": c["case"], "Trace": [], "Props": [a.prop], "race": problem[4]}
    replay = None
    if violation:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, "%s-%s-%d.json" % (a.prop, a.tier, seed))
        with open(replay, "w") as f:
            json.dump({"property": a.prop, "sub": violation["Sub"], "race": violation["race"], "case": violation["Case"],
                       "message": violation["Message"], "trace": violation["Trace"]}, f, indent=1)
    distinct = set()
    subs, discards, samples, rule = {}, collections.Counter(), [], ""
    for r in results:
        distinct.update(r.get("Nontrivial") or [])
        rule = r.get("Rule") or rule
        samples += r.get("Samples") or []
        for k, n in (r.get("Discards") or {}).items():
            discards[k] += n
        for s in r.get("Subs") or []:
            t = subs.setdefault(s["Name"], {"evaluations": 0, "discarded": 0, "labels": collections.Counter()})
            t["evaluations"] += s["Evaluations"]
            t["discarded"] += s["Discarded"]
            t["labels"].update(s["Labels"])
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": LEVELS.get(a.prop, "exploration"),
        "coverage": {
            "evaluations": sum(r["Evaluations"] for r in results),
            "distinct_nontrivial": len(distinct),
            "rule": "generated by rapid from seeds derived from VERIF_SEED, one per process; non-trivial: " + rule,
            "samples": samples[:6] or ["none"],
            "checks": {k: {"evaluations": v["evaluations"], "discarded": v["discarded"], "labels": dict(sorted(v["labels"].items()))} for k, v in subs.items()},
            "discarded": dict(discards.most_common(10)),
            "known_findings_observed": sorted(seen),
        },
        "wall_s": round(time.time() - start, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d discarded, %.1f s" % (a.prop, ev["coverage"]["evaluations"], len(distinct),
          sum(v["discarded"] for v in subs.values()), time.time() - start))
    if violation:
        for l in (violation["Trace"] or [])[-60:]:
            print(l[:1500])
        print(str(violation["Message"])[:6000])
        print("VIOLATION property=%s replay=%s" % (a.prop, replay))
        return 1
    if problem:
        print("error: %s\n%s" % (problem[1], problem[2]))
        return 3
    if not results or ev["coverage"]["evaluations"] == 0:
        print("error: nothing was checked")
        return 3
    return 0


sys.exit(main())
