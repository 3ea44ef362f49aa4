"""Check one property: record sessions of the library, let TLC judge them.

    python harness/run.py C01          (VERIF_TIER, VERIF_SEED from the environment)
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, HERE)
import plan

SHARDS = 8


def env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["JAVA_TOOL_OPTIONS"] = "-Xmx3g -Xss64m -XX:ParallelGCThreads=2"
    return e


def tlc(module, cfg, workdir, extra=(), more_env=None, timeout=800):
    md = tempfile.mkdtemp(dir=workdir)
    e = env()
    e.update(more_env or {})
    p = subprocess.run(
        ["tlc", "-workers", "1", "-noGenerateSpecTE", "-metadir", md, "-config", cfg, *extra, module],
        cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
    )
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def shard(pid, i, tier, seed, workdir, gen):
    """Record shard i and validate it; returns (rejections, events, stats)."""
    out = os.path.join(workdir, "trace%d.ndjson" % i)
    p = subprocess.run(
        [sys.executable, os.path.join(HERE, "drive.py"), pid, str(i), str(SHARDS), out, tier, str(seed)],
        cwd=workdir, env=dict(env(), **gen), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800,
    )
    if p.returncode != 0:
        raise RuntimeError("recorder failed (shard %d):\n%s" % (i, p.stdout[-3000:]))
    with open(out) as f:
        events = [json.loads(x) for x in f]
    notes = [x for x in p.stdout.splitlines() if x.startswith("KNOWN ")]
    if not events:
        return [], [], 0, notes
    rc, log = tlc("Trace.tla", "Trace.cfg", workdir, more_env={"TRACE": out})
    for _ in range(6):
        # an answer so malformed that judging it leaves the specification's domain (or 32 bits)
        at = re.findall(r"^/\\ l = (\d+)", log, re.M)
        if rc == 0 or not at or int(at[-1]) > len(events):
            break
        e = events[int(at[-1]) - 1]
        e["st"] = "answer out of range"
        with open(out, "w") as f:
            for x in events:
                f.write(json.dumps(x) + "\n")
        rc, log = tlc("Trace.tla", "Trace.cfg", workdir, more_env={"TRACE": out})
    m = re.search(r"CHECKED (\d+)", log)
    if rc != 0 or not m or int(m.group(1)) != len(events):
        keep = os.path.join(ROOT, "replay")
        os.makedirs(keep, exist_ok=True)
        shutil.copy(out, os.path.join(keep, "%s-unjudged-%d.ndjson" % (pid, i)))
        raise RuntimeError("trace validation did not finish (shard %d, rc %d):\n%s" % (i, rc, log[-3000:]))
    rej = {}
    for n, clause in re.findall(r'"?REJECT (\d+) ([^"\n]*)"?', log):
        rej.setdefault(int(n) - 1, set()).add(clause)
    return sorted((k, sorted(v)) for k, v in rej.items()), events, len(events), notes


def model(job, workdir):
    t = time.time()
    rc, log = tlc(job["module"] + ".tla", job["cfg"], workdir, extra=job.get("extra", ()))
    m = STATS.findall(log)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    s = re.search(r"The number of states generated: (\d+)", log)
    if s and not m:
        gen = dist = int(s.group(1))
    if job.get("violates"):
        rc = 0 if "is violated" in log else 1
    return dict(name=job["module"] + ":" + job["cfg"] + (" (refuted, as it must be)" if job.get("violates") else ""), rc=rc, generated=gen, distinct=dist, wall=round(time.time() - t, 1), log=log)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    violations, allev, nev, traces, models, notes = [], {}, 0, 0, [], []
    samples = []
    try:
        jobs = plan.models(pid, tier)
        gen = {}
        for job in plan.generators(pid, tier):
            path = os.path.join(workdir, job["cfg"] + ".ndjson")
            rc, log = tlc(job["module"] + ".tla", job["cfg"], workdir, extra=[x.replace("SEED", str(seed)) for x in job["extra"]],
                          more_env={"GEN": path})
            if rc != 0:
                raise RuntimeError("generator %s failed:\n%s" % (job["module"], log[-3000:]))
            if job.get("stdout"):
                with open(path, "w") as f:
                    for x in re.findall(r'^"HIST (.*)"$', log, re.M):
                        f.write(x.encode().decode("unicode_escape") + "\n")
            gen[job["env"]] = path
        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            fs = [ex.submit(shard, pid, i, tier, seed, workdir, gen) for i in range(SHARDS)]
            ms = [ex.submit(model, j, workdir) for j in jobs]
            for i, f in enumerate(fs):
                rej, events, n, nt = f.result()
                nev += n
                notes += nt
                for e in events:
                    allev[e["op"]] = allev.get(e["op"], 0) + 1
                traces += sum(1 for e in events if e["op"] in ("new", "anew"))
                for k, clauses in rej:
                    violations.append((i, k, clauses, events))
                if events:
                    samples.append(json.dumps(events[min(1, len(events) - 1)])[:400])
            for f in ms:
                models.append(f.result())
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    for m in models:
        if m["rc"] != 0:
            print(m["log"][-3000:])
            raise RuntimeError("specification model %s failed" % m["name"])

    lines = []
    seen = set()
    for i, k, clauses, events in violations:
        e = events[k]
        key = (e["op"], tuple(clauses), json.dumps(e.get("d", "")))
        rid = e.get("id")
        ids = {rid, e.get("id2")}
        ctx = [x for x in events[:k] if x["op"] in ("new", "anew") and x.get("id") in ids]
        body = dict(property=pid, tier=tier, seed=seed, shard=i, line=k, clauses=clauses, context=ctx, event=e)
        txt = json.dumps(body)
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        path = os.path.join(ROOT, "replay", "%s-%s.json" % (pid, hashlib.sha1(txt.encode()).hexdigest()[:10]))
        if len(seen) < 25:
            with open(path, "w") as f:
                f.write(txt)
            fam = ctx[0]["d"] if ctx and "d" in ctx[0] else ""
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            lines.append("  %s breaks %s  %s %s" % (e["op"], ",".join(clauses), fam, e.get("msg", "")))
        seen.add((i, k))

    gen = nev + sum(m["generated"] for m in models)
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=nev + sum(m["distinct"] for m in models), transitions=gen,
            traces_validated_against_impl=traces, events_judged=nev, events_by_operation=allev,
            design_models={m["name"]: dict(distinct=m["distinct"], generated=m["generated"], wall_s=m["wall"]) for m in models},
            samples=samples[:4],
        ),
        wall_s=round(time.time() - t0, 2),
        assumptions=plan.ASSUMPTIONS,
        violations=len(seen),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in sorted(set(notes)):
        print("KNOWN-FINDING: property=%s %s" % (pid, n[6:]))
    print("%s: %d events in %d sessions judged, %d rejected; models: %s; %.1f s" % (
        pid, nev, traces, len(seen), ", ".join("%s %d states" % (m["name"], m["distinct"]) for m in models) or "none", time.time() - t0))
    if lines:
        print("\n".join(lines))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:
        print("CHECK-ERROR %s" % e)
        rc = 2
    sys.exit(rc)
