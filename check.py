#!/usr/bin/env python3
"""Decides one property of /repo by exhaustive bounded exploration.

  check.py <property> [--tier quick|thorough] [--budget SECONDS] [--repo DIR] [--keep]
  check.py --replay FILE          re-executes one reported violation

Exit 0: the property held on everything explored. Exit 1: violation (a VIOLATION
line is printed). Exit 2: the check could not run (/repo does not build, ...).
"""
import argparse
import glob
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
MODULE = "github.com/sonirico/visigoth"

# property -> engines: "xf" transformed code under the scheduler, "race" the same
# under the race detector, "plain" the unmodified code
PLAN = {
    "C01": ["xf"], "C02": ["xf"], "C03": ["xf"], "C04": ["race"], "C05": ["xf"], "C06": ["xf"], "C07": ["xf"],
    "C08": ["plain"], "C09": ["plain"], "C10": ["xf", "plain"], "C11": ["plain"], "C12": ["plain"], "C13": ["plain"],
    "C14": ["plain"], "C15": ["plain"], "C16": ["plain"], "C17": ["plain"], "C18": ["race", "plain"], "C19": ["plain"],
}
BUDGET = {"quick": 240, "thorough": 2400}
SELFTEST = ("C01", "C02", "C03")
LEVELS = 3  # transformation levels 0..2; 3 means untransformed

ASSUME = {
    "xf": "xf: tokenizers of the harness and of the package, a bounded number of clients, calls, indices, aliases and documents (see DESIGN.md); memory is sequentially consistent, which is sound as long as C04 reports no data race",
    "race": "race: as xf; the race detector sees only the synchronisation of the code itself, the scheduler's hand-offs are hidden from it",
    "plain": "plain: inputs outside the stated bounds are not covered; github.com/kljensen/snowball/spanish is the reference for stems, Unicode tables and encoding/json of the Go library are trusted",
}

RULE = "every member of the enumerations named in coverage.groups, each once; non-trivial: the expected outcome is not empty (something must be found, kept, produced or decoded); distinct within an enumeration by construction"


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", CGO_ENABLED="1")
    for k in ("GODEBUG", "GOMAXPROCS", "GOEXPERIMENT", "GOOS", "GOARCH"):
        e.pop(k, None)
    return e


class Broken(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def copy_tree(repo, dst):
    """The module without tests and repository data."""
    for base, dirs, files in os.walk(repo):
        rel = os.path.relpath(base, repo)
        dirs[:] = [d for d in dirs if d not in (".git", "node_modules") and not os.path.islink(os.path.join(base, d))]
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            p = os.path.join(base, f)
            if f.endswith("_test.go") or f.endswith(".png") or not os.path.isfile(p) or os.path.getsize(p) > 20 << 20:
                continue
            shutil.copyfile(p, os.path.join(dst, rel, f))


def run(cmd, cwd, timeout=600, extra=None):
    e = env()
    e.update(extra or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -99, "timeout: " + str(x)


def build_plain(repo, tmp):
    d = os.path.join(tmp, "plain")
    copy_tree(repo, d)
    os.makedirs(d + "/zz_verif")
    shutil.copytree(HERE + "/src/plain", d + "/zz_verif/plain")
    rc, out = run(["go", "build", "-o", tmp + "/plainbin", "./zz_verif/plain"], d)
    if rc != 0:
        raise Broken("the harness does not build on /repo:\n" + out[-4000:])
    shutil.rmtree(d)
    return tmp + "/plainbin"


def build_xf(repo, tmp, race):
    xform = tmp + "/xform"
    rc, out = run(["go", "build", "-o", xform, "."], HERE + "/src/xform")
    if rc != 0:
        raise Broken("xform does not build:\n" + out[-4000:])
    last = ""
    for level in range(LEVELS + 1):
        d = os.path.join(tmp, "xf%d" % level)
        copy_tree(repo, d)
        os.makedirs(d + "/zz_verif")
        for m in ("vs", "model", "xf"):
            shutil.copytree(HERE + "/src/" + m, d + "/zz_verif/" + m)
        if level < LEVELS:
            rc, out = run([xform, "-level", str(level), "."], d)
            if rc != 0:
                last += "level %d: xform: %s\n" % (level, out[-1500:])
                shutil.rmtree(d)
                continue
        b = tmp + "/xfbin"
        rc, out = run(["go", "build"] + (["-race"] if race else []) + ["-o", b, "./zz_verif/xf"], d)
        shutil.rmtree(d)
        if rc == 0:
            return b, level, last
        last += "level %d: %s\n" % (level, out[-1500:])
    raise Broken("the harness does not build on /repo:\n" + last)


def limits(engine, prop):
    def f():
        os.setsid()
        if engine != "race":
            n = (10 << 30) if prop == "C19" else (4 << 30)
            resource.setrlimit(resource.RLIMIT_AS, (n, n))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Engine:
    def __init__(self, kind, binary, prop, tier, work):
        self.kind, self.binary, self.prop, self.tier, self.work = kind, binary, prop, tier, work
        os.makedirs(work, exist_ok=True)

    def env(self, tag):
        e = env()
        if self.kind == "race":
            e["GORACE"] = "suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 log_path=%s/race.%s" % (self.work, tag)
        if self.kind == "plain":
            e["GOMAXPROCS"] = "2"
        return e

    def args(self, tag, shard, shards, deadline, only=None, solo=False):
        a = [self.binary, "-prop", self.prop, "-tier", self.tier, "-shard", str(shard), "-shards", str(shards),
             "-out", "%s/%s.json" % (self.work, tag), "-progress", "%s/%s.progress" % (self.work, tag), "-stop", self.work + "/stop"]
        if deadline:
            a += ["-deadline", str(int(deadline * 1000))]
        if only is not None:
            a += ["-only", str(only)]
        if solo:
            a += ["-solo"]
        return a

    def spawn(self, tag, *a, **k):
        for f in glob.glob("%s/%s.json" % (self.work, tag)):
            os.remove(f)
        err = open("%s/%s.err" % (self.work, tag), "wb")
        p = subprocess.Popen(self.args(tag, *a, **k), cwd=self.work, env=self.env(tag), stdout=err, stderr=err, preexec_fn=limits(self.kind, self.prop))
        err.close()
        return p

    def result(self, tag):
        try:
            with open("%s/%s.json" % (self.work, tag)) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def errtext(self, tag, n=6000):
        try:
            with open("%s/%s.err" % (self.work, tag), errors="replace") as f:
                t = f.read()
        except OSError:
            return ""
        return t if len(t) <= n else t[: n // 2] + "\n...\n" + t[-n // 2:]

    def races(self, tag):
        t = ""
        for f in sorted(glob.glob("%s/race.%s.*" % (self.work, tag))):
            with open(f, errors="replace") as h:
                t += h.read(20000)
        return t[:8000]

    def wait(self, procs, hard):
        """Waits; kills what outlives the hard limit."""
        for tag, p in procs:
            try:
                p.wait(max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()

    def explore(self, shards, deadline):
        """Runs all shards; returns (results, crashes, notes)."""
        procs = [("s%d" % i, self.spawn("s%d" % i, i, shards, deadline)) for i in range(shards)]
        hard = deadline + 100
        while any(p.poll() is None for _, p in procs) and time.time() < hard:
            time.sleep(0.05)
            for tag, p in procs:
                if p.poll() is not None and not os.path.exists(self.work + "/stop"):
                    r = self.result(tag)
                    if not r or not r.get("done") or r.get("viols"):
                        open(self.work + "/stop", "w").close()
        self.wait(procs, hard)
        if os.path.exists(self.work + "/stop"):
            os.remove(self.work + "/stop")
        shutil.rmtree(self.work + "/stop.pool", ignore_errors=True)
        results, crashes, notes = [], [], []
        for i, (tag, p) in enumerate(procs):
            r = self.result(tag)
            if r and r.get("done"):
                results.append(r)
                continue
            try:
                with open("%s/%s.progress" % (self.work, tag)) as f:
                    u = int(f.read())
            except (OSError, ValueError):
                u = None
            crashes.append((i, u, p.returncode, (r or {}).get("crash") or self.errtext(tag)))
        return results, crashes, notes

    def once(self, tag, limit, **k):
        p = self.spawn(tag, 0, 1, 0, **k)
        self.wait([(tag, p)], time.time() + limit)
        return p.returncode, self.result(tag)

    def shard_again(self, tag, i, shards, limit):
        p = self.spawn(tag, i, shards, time.time() + limit - 60, solo=True)
        self.wait([(tag, p)], time.time() + limit)
        return p.returncode, self.result(tag)


def died(rc, r):
    """The process ended on its own without finishing: a crash or a hang of the code."""
    return not (r and r.get("done")) and rc not in (0, -signal.SIGKILL, -signal.SIGTERM)


def confirm(eng, v, replay, shards, shard):
    """A violation counts when it shows again in a fresh process."""
    if eng.kind == "plain":
        for k in range(3):
            rc, r = eng.once("c%d" % k, 300, only=v["unit"])
            if r and r.get("viols"):
                return r["viols"][0], ""
            if died(rc, r):
                return dict(v, detail=v["detail"] + " (again: " + eng.errtext("c%d" % k, 1500) + ")"), ""
        rc, r = eng.shard_again("cs", shard, shards, 300)
        if r and r.get("viols"):
            return r["viols"][0], ""
        return None, ""
    p = eng.work + "/v.json"
    with open(p, "w") as f:
        json.dump(v, f)
    for k in range(10):
        tag = "r%d" % k
        e = eng.env(tag)
        q = None
        try:
            q = subprocess.run([eng.binary, "-replay", p], cwd=eng.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors="replace", preexec_fn=limits(eng.kind, eng.prop))
        except subprocess.TimeoutExpired:
            continue
        if "REPRODUCED" in q.stdout and "not reproduced" not in q.stdout:
            return v, q.stdout[:6000] + eng.races(tag)
        if q.returncode not in (0, 1):
            return v, q.stdout[:6000]
    # the schedule alone does not show it: repeat its unit (state left by earlier runs of the unit)
    for k in range(2):
        rc, r = eng.once("c%d" % k, 300, only=v["unit"])
        if r and r.get("viols"):
            return r["viols"][0], eng.races("c%d" % k)
        if died(rc, r):
            return v, eng.errtext("c%d" % k)
    return None, ""


def known_findings():
    """known-findings.txt: lines 'known: property=<id> key=<key of the violation>'."""
    k = set()
    try:
        with open(HERE + "/known-findings.txt") as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property="):
                    prop, _, key = line[len("known: property="):].partition(" key=")
                    k.add((prop, key))
    except OSError:
        pass
    return k


COUNTS = ("histories", "states", "transitions", "traces", "evals", "nontrivial", "distinct")


def merge(results):
    m = {"units": 0, "units_total": 0, "skipped": 0, "groups": {}, "incomplete": {}, "samples": [], "stats": {}}
    m.update((k, 0) for k in COUNTS)
    for r in results:
        m["units"] += r.get("units", 0)
        m["units_total"] = max(m["units_total"], r.get("units_total", 0))
        m["skipped"] += r.get("skipped", 0)
        for k in COUNTS:
            m[k] = m.get(k, 0) + r.get(k, 0)
        for k, x in (r.get("stats") or {}).items():
            m["stats"][k] = max(m["stats"].get(k, 0), x) if k == "MaxSteps" else m["stats"].get(k, 0) + x
        for k, x in (r.get("incomplete") or {}).items():
            m["incomplete"][k] = m["incomplete"].get(k, 0) + x
        m["samples"] += (r.get("samples") or [])[:3]
        for g, x in (r.get("groups") or {}).items():
            y = m["groups"].setdefault(g, {"units": 0, "done": 0, "executions": 0, "cpu_ms": 0, "complete": True})
            y["units"] += x["Units"]
            y["done"] += x["Done"]
            y["executions"] += x["Execs"]
            y["cpu_ms"] += x["MS"]
            y["complete"] = y["complete"] and x["Complete"]
    for y in m["groups"].values():
        y["complete"] = y["complete"] and y["done"] == y["units"]
    return m


def replay_file(path):
    with open(path) as f:
        rep = json.load(f)
    tmp = tempfile.mkdtemp(prefix="visigoth-verif-")
    try:
        kind = rep["engine"]
        if kind == "plain":
            b = build_plain("/repo", tmp)
        else:
            b, _, _ = build_xf("/repo", tmp, kind == "race")
        e = Engine(kind, b, rep["property"], rep["tier"], tmp + "/w")
        v, text = confirm(e, rep["violation"], path, rep.get("shards", 1), rep.get("shard", 0))
        say("REPRODUCED " + v["detail"] if v else "not reproduced on the current tree")
        say(text)
        return 1 if v else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--evidence", default=HERE + "/evidence")
    ap.add_argument("--replay")
    ap.add_argument("--level", type=int, help="start at this transformation level (testing)")
    a = ap.parse_args()
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    if a.replay:
        return replay_file(a.replay)
    if a.prop not in PLAN or a.tier not in BUDGET:
        say("unknown property or tier")
        return 2
    t0 = time.time()
    prop = a.prop
    budget = a.budget or float(os.environ.get("VERIF_BUDGET") or BUDGET[a.tier])
    shards = max(2, min(16, len(os.sched_getaffinity(0))))
    os.makedirs(a.evidence + "/replay", exist_ok=True)
    for f in glob.glob("%s/replay/%s.*" % (a.evidence, prop)) + ["%s/%s.json" % (a.evidence, prop)]:
        if os.path.exists(f):
            os.remove(f)
    tmp = tempfile.mkdtemp(prefix="visigoth-verif-")
    try:
        return check(a, prop, budget, shards, tmp, t0)
    except Broken as x:
        say("ERROR " + str(x))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def reduction_selftest(binary, tmp, shards):
    """The reduced exploration sees as many executions as the full one on all small programs."""
    ps = [subprocess.Popen([binary, "-selftest", "2", "-shard", str(i), "-shards", str(shards)], cwd=tmp, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for i in range(shards)]
    outs = [p.communicate()[0].strip() for p in ps]
    diff = [l for o in outs for l in o.splitlines() if l.startswith("DIFFERENT")]
    ok = not diff and all(p.returncode == 0 for p in ps)
    return ok, "; ".join((diff or [o.splitlines()[-1] if o else "no output" for o in outs])[:40])


def check(a, prop, budget, shards, tmp, t0):
    kinds = PLAN[prop]
    cov, notes, viols = {}, [], []
    levels = {}
    known = known_findings()
    engines = []
    for kind in kinds:
        if kind == "plain":
            engines.append((kind, build_plain(a.repo, tmp)))
        else:
            b, lvl, why = build_xf(a.repo, tmp, kind == "race")
            levels[kind] = lvl
            if lvl:
                notes.append("transformed at level %d (%s)" % (lvl, why.strip()[:800]))
            engines.append((kind, b))
    build_s = time.time() - t0
    merged = {}
    complete = True
    suppressed = []
    if a.tier == "thorough" and prop in SELFTEST:
        ok, text = reduction_selftest(engines[0][1], tmp, shards)
        cov["reduction_selftest"] = text
        if not ok:
            notes.append("the reduction misses executions: " + text[-1500:])
            complete = False
    for n, (kind, b) in enumerate(engines):
        eng = Engine(kind, b, prop, a.tier, tmp + "/w%d" % n)
        share = budget / len(engines)
        deadline = time.time() + share
        results, crashes, more = eng.explore(shards, deadline)
        notes += more
        found = []
        for r in results:
            for v in r.get("viols") or []:
                found.append((v, r))
        for i, u, rc, text in crashes:
            complete = False
            if viols or time.time() > t0 + 2 * budget + 60:
                continue  # one confirmed crash is enough
            ok = False
            if u is not None:
                c, r = eng.once("x", 400, only=u)
                if died(c, r):
                    text, ok = (r or {}).get("crash") or eng.errtext("x"), True
                elif r and r.get("viols"):
                    found.append((r["viols"][0], r))
                    continue
            if not ok and rc not in (-signal.SIGKILL, -signal.SIGTERM):
                c, r = eng.shard_again("y", i, shards, share + 60)
                if died(c, r):
                    text, ok = (r or {}).get("crash") or eng.errtext("y"), True
                elif r:
                    results.append(r)
            if ok:
                viols.append((kind, {"property": prop, "kind": "crash", "key": "crash", "detail": "the process exploring unit %s ended abnormally, twice: %s" % (u, text), "unit": u}, "", i))
            else:
                notes.append("shard %d ended early (status %s, unit %s) and this did not repeat: %s" % (i, rc, u, text[-500:]))
                if not results:
                    raise Broken("exploration could not be completed: " + text[-2000:])
        for v, r in found:
            if (prop, v["key"]) in known:
                suppressed.append(v["key"])
                continue
            if len(viols) >= 2:
                break
            sh = v["unit"] % shards if v.get("unit") is not None else 0
            w, text = confirm(eng, v, None, shards, sh)
            if w is None:
                notes.append("not confirmed in fresh processes, so not reported: %s: %s" % (v["key"], v["detail"][:600]))
                complete = False
            elif (prop, w["key"]) in known:
                suppressed.append(w["key"])
            else:
                viols.append((kind, w, text, sh))
        merged[kind] = merge(results)
        for g in merged[kind]["groups"].values():
            complete = complete and g["complete"]
        if viols:
            break
    # evidence
    groups, samples = {}, []
    for kind, m in merged.items():
        for g, x in m["groups"].items():
            groups["%s: %s" % (kind, g)] = x
        samples += sorted(set(m["samples"]))[:6]
        if kind == "plain":
            cov["evaluations"] = m["evals"]
            cov["distinct_nontrivial"] = m["distinct"]
            cov["rule"] = RULE
        else:
            st = m["stats"]
            cov["states"] = m["states"] + st.get("Nodes", 0)
            cov["distinct_call_histories"] = m["histories"]
            cov["transitions"] = st.get("Steps", 0) if st.get("Nodes") else m["transitions"]
            cov["traces_validated_against_impl"] = st.get("Execs", 0)
            cov["executions_cut_as_equivalent"] = st.get("Pruned", 0)
            cov["longest_execution_steps"] = st.get("MaxSteps", 0)
            cov["not_judged"] = {k: st.get(k, 0) for k in ("Diverged", "Capped", "TooLong", "Foreign")}
            cov["meaning"] = "every trace is an execution of the real code, judged against the reference model or the stated oracle; states: nodes of the schedule trees (distinct schedule prefixes) plus, for call histories, distinct canonical repository states; transitions: steps between scheduling points executed"
            cov["transformation_level"] = levels.get(kind)
            if levels.get(kind) or any(st.get(k, 0) for k in ("Diverged", "Capped", "TooLong", "Foreign")):
                complete = False
        if m["incomplete"] or m["skipped"]:
            complete = False
            cov["skipped_units"] = cov.get("skipped_units", 0) + m["skipped"]
            cov.setdefault("incomplete", {}).update(m["incomplete"])
    cov["samples"] = samples or ["(none)"]
    cov["groups"] = groups
    cov["exhaustive"] = bool(complete and not viols)
    cov["build_s"] = round(build_s, 1)
    if notes:
        cov["notes"] = notes
    ev = {
        "property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED") or 0),
        "level": "exploration" if kinds == ["plain"] else "model_checking",
        "coverage": cov, "assumptions": [ASSUME[k] for k in kinds],
        "wall_s": round(time.time() - t0, 1), "violations": len(viols),
    }
    path = "%s/%s.json" % (a.evidence, prop)
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.rename(path + ".tmp", path)
    for k in sorted(set(suppressed)):
        say("KNOWN-FINDING: property=%s %s" % (prop, k))
    for g, x in groups.items():
        say("%s %s: %d of %d units, %d executions%s" % (prop, g, x["done"], x["units"], x["executions"], "" if x["complete"] else " (not complete)"))
    for x in notes:
        say("note: " + x)
    for n, (kind, v, text, sh) in enumerate(viols):
        rp = "%s/replay/%s.%d.json" % (a.evidence, prop, n)
        with open(rp, "w") as f:
            json.dump({"property": prop, "engine": kind, "tier": a.tier, "shards": shards, "shard": sh, "violation": v, "trace": text}, f, indent=1, ensure_ascii=False)
        say("%s: %s" % (v.get("key"), str(v.get("detail"))[:3000]))
        if v.get("scenario"):
            say("scenario: " + json.dumps(v["scenario"], ensure_ascii=False)[:2000])
        if text:
            say(text[:5000])
        say("VIOLATION property=%s replay=%s" % (prop, rp))
    say("%s %s: %s, %.1f s" % (prop, a.tier, "violated" if viols else "held", time.time() - t0))
    return 1 if viols else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as x:  # noqa: BLE001 - never exit 1 for an error of the check
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
