#!/usr/bin/env python3
"""run.py OUT.json [-j N] [-scale F] [FILES...]: measures the checks with generated changes of /repo's code.

main.go lists the changes (a condition that is always true, a deleted statement, swapped arguments, ...). As many as do not overlap are
compiled into one binary, where an environment variable chooses the one that is active; those that do not compile are left out.
Every change is run through the checks that reach it, at a small scale, until one of them reports a violation."""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PROPS = "C01 C06 C07 C09 C17 C05 C02 C08 C10 C11 C12 C03 C04 C33 C14 C30 C13 C22 C24 C16 C19 C20 C21 C15 C18 C28 C32 C23 C25 C26 C27 C29 C31".split()
FILES = """internal/audit/audit.go internal/config/audit.go internal/config/cache.go internal/config/config.go internal/config/storage.go
internal/config/service.go internal/config/housekeeper.go internal/config/metrics.go internal/config/viper_config.go internal/dtime/deckard_time.go
internal/metrics/metrics.go internal/metrics/metrics_map.go internal/metrics/registry.go internal/queue/queue.go
internal/queue/queue_configuration_service.go internal/queue/queue_housekeeper.go internal/queue/cache/cache.go
internal/queue/cache/memory_cache.go internal/queue/cache/redis_cache.go internal/queue/message/message.go
internal/queue/score/score.go internal/queue/storage/memory_storage.go internal/queue/storage/mongo_storage.go
internal/queue/storage/storage.go internal/queue/utils/math_helper.go internal/queue/utils/primitive_conversion.go
internal/service/deckard_service.go internal/shutdown/shutdown.go internal/trace/trace.go""".split()

ZZM = '''package zzm

import (
	"fmt"
	"os"
	"strconv"
	"sync"
)

var active = func() int { n, _ := strconv.Atoi(os.Getenv("ZZM")); return n }()
var out = func() *os.File {
	if n := os.Getenv("ZZMOUT"); n != "" {
		f, _ := os.OpenFile(n, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		return f
	}
	return nil
}()
var mu sync.Mutex
var seen = map[int]bool{}

func M(n int) bool {
	if out != nil {
		mu.Lock()
		if !seen[n] {
			seen[n] = true
			fmt.Fprintln(out, n)
		}
		mu.Unlock()
	}
	return active == n
}

func V[T any](n int, a, b T) T {
	if M(n) {
		return b
	}
	return a
}

func Z[T any](n int, a T) T {
	var z T
	return V(n, a, z)
}
'''


def rendered(m, i):
    k, t, n = m["kind"], m["full"], m["new"]
    if k in ("delete", "emptycase"):
        if m["full"].startswith("defer "):
            call = t[len("defer "):]
            if re.match(r"[\w.]+\(\)$", call):
                return "defer func() { if !zzm.M(%d) { %s } }()" % (i, call)
            return None
        return "if !zzm.M(%d) { %s }" % (i, t)
    if k == "iftrue":
        return "((%s) || zzm.M(%d))" % (t, i)
    if k in ("iffalse", "forfalse"):
        return "((%s) && !zzm.M(%d))" % (t, i)
    if k == "branch":
        return "if zzm.M(%d) { %s } else { %s }" % (i, n, t)
    if k == "return":
        return "if !zzm.M(%d) { return }" % i
    if k in ("operand", "not", "binary"):
        return "((zzm.M(%d) && (%s)) || (!zzm.M(%d) && (%s)))" % (i, n, i, t)
    if k == "replace":
        return "if zzm.M(%d) { %s } else { %s }" % (i, n, t)
    if k == "arith":
        return "zzm.V(%d, %s, %s)" % (i, t, n)
    if k in ("const", "string", "bool"):
        return "zzm.V(%d, %s, %s)" % (i, t, n)
    if k == "errnil":
        return "zzm.V[error](%d, %s, nil)" % (i, t)
    if k == "swap":
        b, a = m["pair"]
        if "(" in a + b or "{" in a + b:
            return None
        return "zzm.V(%d, %s, %s), zzm.V(%d, %s, %s)" % (i, a, b, i, b, a)
    if k == "field":
        key, v = t.split(":", 1)
        return "%s: zzm.Z(%d, %s)" % (key, i, v.strip())
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("-scale", default="0.03")
    ap.add_argument("-props", default="")
    ap.add_argument("-sample", type=float, default=1)
    ap.add_argument("files", nargs="*")
    a = ap.parse_intermixed_args()
    props = a.props.split(",") if a.props else PROPS
    files = a.files or FILES
    work = os.environ.get("WORK", "/tmp/mutwork")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    subprocess.run(["cp", "-a", os.environ.get("REPO", "/repo"), work + "/repo"], check=True)
    repo = work + "/repo"
    os.makedirs(repo + "/internal/zzm")
    open(repo + "/internal/zzm/zzm.go", "w").write(ZZM)
    src = {f: open(os.path.join(repo, f)).read() for f in files}
    muts = []
    for f in files:
        o = subprocess.run([os.environ.get("MUTGEN", "/tmp/mutgen"), os.path.join(repo, f)], capture_output=True, text=True, check=True).stdout
        raw = src[f].encode()
        for l in o.splitlines():
            m = json.loads(l)
            m["file"] = f
            m["full"] = raw[m["Off"]:m["End"]].decode()
            if m["kind"] == "swap":
                s = m["new"]
                # new is "b, a" and text "a, b": the cut is where both agree
                for c in range(1, len(s)):
                    if s[c:c + 2] == ", ":
                        b, x = s[:c], s[c + 2:]
                        if m["full"].startswith(x) and m["full"].endswith(b) and len(x) + len(b) <= len(m["full"]):
                            m["pair"] = (b, x)
                            break
                else:
                    continue
            muts.append(m)
    for i, m in enumerate(muts, 1):
        m["id"] = i
    import random
    if a.sample < 1:
        muts = [m for m in muts if random.Random(m["id"]).random() < a.sample]
    todo, results, layer, lock = muts, [], 0, threading.Lock()
    while todo:
        layer += 1
        chosen, rest, used = [], [], {}
        for m in todo:
            r = rendered(m, m["id"])
            if r is None:
                continue
            spans = used.setdefault(m["file"], [])
            if any(m["Off"] < e and s < m["End"] for s, e in spans):
                rest.append(m)
                continue
            spans.append((m["Off"], m["End"]))
            m["r"] = r
            chosen.append(m)
        todo = rest
        b = "%s/b%d" % (work, layer)
        while True:
            lines = {}
            for f in files:
                raw = src[f].encode()
                ms = sorted((m for m in chosen if m["file"] == f), key=lambda m: -m["Off"])
                for m in ms:
                    raw = raw[:m["Off"]] + m["r"].encode() + raw[m["End"]:]
                t = raw.decode()
                if ms:
                    t = re.sub(r"^(package \w+)$", r'\1; import "github.com/takenet/deckard/internal/zzm"', t, count=1, flags=re.M)
                open(os.path.join(repo, f), "w").write(t)
            e = dict(os.environ, REPO=repo)
            p = subprocess.run(["bash", "-c", "(. /opt/vp/env.sh; cd %s; bin/build.sh %s)" % (HERE, b)], env=e, capture_output=True, text=True)
            if p.returncode == 0:
                break
            bad = set()
            for l in p.stderr.splitlines():
                x = re.match(r"(\S+\.go):(\d+):(?:\d+:)? ", l)
                if x:
                    bad.add((os.path.relpath(os.path.join(repo, x.group(1)), repo), int(x.group(2))))
            def hit(m):
                return any(f == m["file"] and m["Line"] <= n <= m["Line"] + m["full"].count("\n") for f, n in bad)
            def exact(m):
                return any(f == m["file"] and m["Line"] == n for f, n in bad)
            for m in chosen:
                m.setdefault("Line", m["line"])
            drop = [m for m in chosen if exact(m)] or [m for m in chosen if hit(m)]
            if not drop:
                print(p.stdout[-500:], p.stderr[-3000:])
                # errors that name no mutant: drop those of the function kind that break returns
                drop = [m for m in chosen if m["kind"] in ("emptycase", "return")]
                if not drop:
                    sys.exit(1)
            for m in drop:
                m["dropped"] = True
            # a dropped one may only share its line with the culprit: the others get another chance
            again = [m for m in drop if len(drop) > 1 and sum(1 for x in drop if x["file"] == m["file"] and x["line"] == m["line"]) > 1 and not m.get("retry")]
            for m in again:
                m["retry"] = True
            first = {}
            for m in again:
                first.setdefault((m["file"], m["line"]), []).append(m)
            for ms in first.values():
                todo += ms
            chosen = [m for m in chosen if m not in drop]
        print("layer %d: %d changes, %d left" % (layer, len(chosen), len(todo)), flush=True)
        # which checks reach which
        reach = {}

        def cover(p):
            d = "%s/cov%s" % (work, p)
            os.makedirs(d, exist_ok=True)
            o = d + "/reached"
            if os.path.exists(o):
                os.unlink(o)
            t = time.time()
            r = subprocess.run(["timeout", "200", b + "/harness", "-prop", p, "-scale", a.scale, "-dir", d], env=dict(os.environ, ZZMOUT=o, TMPDIR=d),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=d)
            if r.returncode:
                print("UNMUTATED", p, r.returncode, r.stdout[-800:], flush=True)
            return p, set(int(x) for x in open(o).read().split()) if os.path.exists(o) else set(), time.time() - t

        with cf.ThreadPoolExecutor(a.j) as ex:
            for p, s, t in ex.map(cover, props):
                for i in s:
                    reach.setdefault(i, []).append(p)

        def one(m):
            ps = sorted(reach.get(m["id"], []), key=props.index)
            res = {"id": m["id"], "file": m["file"], "line": m["line"], "kind": m["kind"], "text": m["full"][:300], "new": m["new"][:200], "reached": len(ps), "killed": None}
            d = "%s/m%d" % (work, m["id"])
            os.makedirs(d, exist_ok=True)
            for p in ps:
                r = subprocess.run(["timeout", "-s", "KILL", "90", b + "/harness", "-prop", p, "-scale", a.scale, "-dir", d, "-out", d + "/out"], env=dict(os.environ, ZZM=str(m["id"]), TMPDIR=d),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=d)
                v = False
                try:
                    v = bool(json.load(open(d + "/out")).get("Violation"))
                    os.unlink(d + "/out")
                except Exception:
                    pass
                if v:
                    res["killed"] = p
                    break
                if r.returncode:
                    res["killed"] = "%s(%d)" % (p, r.returncode)
                    res["tail"] = r.stdout[-300:]
                    break
            shutil.rmtree(d, ignore_errors=True)
            with lock:
                results.append(res)
                json.dump(results, open(a.out, "w"), indent=0)

        with cf.ThreadPoolExecutor(a.j) as ex:
            list(ex.map(one, chosen))
        shutil.rmtree(b, ignore_errors=True)
        k = sum(1 for r in results if r["killed"])
        print("  %d of %d found, %d not reached" % (k, len(results), sum(1 for r in results if not r["reached"])), flush=True)
    shutil.rmtree(work, ignore_errors=True)


main()
