"""Driver of a check: plans seeded runs, executes them in worker processes,
minimises and reports violations, writes the evidence file.

    python -m ntnsim.check C04 [--runs N] [--replay FILE]

Environment: VERIF_SEED, VERIF_TIER (quick | thorough), NTN_REPO.
Exit status: 0 held, 1 violated (a VIOLATION line), 2 the check itself failed.
"""
import argparse
import hashlib
import json
import os
import random
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

from . import worker as W

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Pool:
    def __init__(self, prop, n, env=None):
        self.prop = prop
        self.scratch = tempfile.mkdtemp(prefix=f"ntnsim-{prop}-")
        self.env = dict(os.environ, PYTHONPATH=ROOT, PYTHONHASHSEED="0",
                        PYTHONDONTWRITEBYTECODE="1", NTN_SCRATCH=self.scratch, **(env or {}))
        self.n = n
        self.sel = selectors.DefaultSelector()
        self.ws = []
        for _ in range(n):
            self._spawn()

    def _spawn(self):
        p = subprocess.Popen([PY, "-m", "ntnsim.worker", self.prop],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE if not os.environ.get("NTN_DEBUG") else None,
                             env=self.env, cwd=ROOT)
        if p.stderr is not None:
            os.set_blocking(p.stderr.fileno(), False)
        w = dict(p=p, buf=b"", job=None, ready=False, t=time.time(), err=b"")
        os.set_blocking(p.stdout.fileno(), False)
        self.sel.register(p.stdout, selectors.EVENT_READ, w)
        self.ws.append(w)

    def _drain_err(self, w):
        if w["p"].stderr is None:
            return
        try:
            w["err"] = (w["err"] + (w["p"].stderr.read() or b""))[-4000:]
        except (BlockingIOError, ValueError):
            pass

    def _send(self, w, job):
        w["job"] = job
        w["t"] = time.time()
        w["p"].stdin.write((json.dumps(dict(id=job["id"], plan=job["plan"])) + "\n").encode())
        w["p"].stdin.flush()

    def map(self, jobs, on_result, deadline=None, job_timeout=300, stop=None):
        """jobs: iterable of dict(id, plan). Calls on_result(job, result)."""
        it = iter(jobs)
        pending = {}
        retry = []
        exhausted = False

        def feed(w):
            nonlocal exhausted
            if retry:
                job = retry.pop()
            else:
                if exhausted or (deadline and time.time() > deadline) or (stop and stop()):
                    exhausted = True
                    return
                try:
                    job = next(it)
                except StopIteration:
                    exhausted = True
                    return
            pending[job["id"]] = job
            try:
                self._send(w, job)
            except (BrokenPipeError, OSError):
                pass

        for w in self.ws:
            if w["ready"] and w["job"] is None:
                feed(w)
        while pending or not exhausted or retry:
            ev = self.sel.select(timeout=1.0)
            for key, _ in ev:
                w = key.data
                self._drain_err(w)
                try:
                    d = w["p"].stdout.read(1 << 20)
                except BlockingIOError:
                    continue
                if not d:
                    self._dead(w, pending, retry, on_result)
                    continue
                w["buf"] += d
                while b"\n" in w["buf"]:
                    line, w["buf"] = w["buf"].split(b"\n", 1)
                    r = json.loads(line)
                    if r.get("ready"):
                        w["ready"] = True
                    else:
                        job = w["job"]
                        w["job"] = None
                        pending.pop(job["id"], None)
                        on_result(job, r)
                    feed(w)
            now = time.time()
            for w in list(self.ws):
                if w["job"] is not None and now - w["t"] > job_timeout:
                    w["job"]["hung"] = True
                    w["p"].kill()
            if exhausted and not pending and not retry:
                break
            if not any(w["ready"] for w in self.ws) and \
                    all(now - w["t"] > 240 for w in self.ws):
                raise RuntimeError("workers do not start")

    def _dead(self, w, pending, retry, on_result):
        self._drain_err(w)
        self.sel.unregister(w["p"].stdout)
        self.ws.remove(w)
        w["p"].wait()
        job = w["job"]
        if not w["ready"]:
            raise RuntimeError("worker failed to start: " + w["err"].decode(errors="replace")[-3000:])
        if job is not None:
            pending.pop(job["id"], None)
            job["deaths"] = job.get("deaths", 0) + 1
            if job["deaths"] < 2:
                retry.append(job)
            else:
                why = "timed out" if job.get("hung") else f"died rc={w['p'].returncode}"
                on_result(job, dict(error=f"worker {why}: " +
                                    w["err"].decode(errors="replace")[-2000:]))
        self._spawn()

    def close(self):
        for w in self.ws:
            try:
                w["p"].stdin.write(b'{"quit":1}\n')
                w["p"].stdin.close()
            except OSError:
                pass
        t = time.time()
        for w in self.ws:
            try:
                w["p"].wait(timeout=max(0.1, 3 - (time.time() - t)))
            except subprocess.TimeoutExpired:
                w["p"].kill()
                w["p"].wait()
        shutil.rmtree(self.scratch, ignore_errors=True)


def known_findings():
    try:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def is_known(prop, viol):
    for k in known_findings():
        if k["property"] == prop and k.get("status") == "known" \
                and viol.get("key") and viol["key"] in k["keys"]:
            return k
    return None


def run_many(pool, plans, tag):
    """Run a list of plans -> list of results in order"""
    res = [None]*len(plans)
    jobs = [dict(id=f"{tag}{i}", n=i, plan=p) for i, p in enumerate(plans)]

    def on(job, r):
        res[job["n"]] = r
    pool.map(jobs, on)
    return res


def same_class(prop, r, cls):
    return r and r.get("viol") and r["viol"]["cls"] == cls and not is_known(prop, r["viol"])


def candidates(mod, plan):
    """Simpler plans, most aggressive first"""
    for field in ("ops", "faults"):
        l = plan.get(field)
        if not isinstance(l, list):
            continue
        n = len(l)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                q = dict(plan)
                q[field] = l[:s] + l[s+size:]
                if len(q[field]) < n:
                    yield q
            size //= 2
    if hasattr(mod, "shrink"):
        yield from mod.shrink(plan)


def minimise(mod, prop, pool, plan, cls, budget_s=float(os.environ.get("NTN_MIN_S", "60"))):
    t0 = time.time()
    tried = 0
    best = plan
    seen = {json.dumps(plan, sort_keys=True)}
    while time.time() - t0 < budget_s:
        cands = []
        for q in candidates(mod, best):
            k = json.dumps(q, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append(q)
            if len(cands) >= 4*pool.n:
                break
        if not cands:
            break
        hit = None
        for s in range(0, len(cands), pool.n):
            if time.time() - t0 > budget_s:
                break
            chunk = cands[s:s+pool.n]
            rs = run_many(pool, chunk, f"m{tried}_")
            tried += len(chunk)
            for q, r in zip(chunk, rs):
                if same_class(prop, r, cls):
                    hit = q
                    break
            if hit:
                break
        if hit is None:
            break
        best = hit
    return best, tried


def fmt(msg):
    return " ".join(str(msg).split())


def replay(prop, path):
    with open(path) as f:
        rp = json.load(f)
    mod = W.load(prop)
    pool = Pool(prop, 1)
    r = run_many(pool, [rp["plan"]], "r")[0]
    pool.close()
    if r.get("error"):
        print(r["error"], file=sys.stderr)
        return 2
    if r.get("viol"):
        print(f"replayed: {r['viol']['cls']}: {fmt(r['viol']['msg'])}")
        print("digest", r["digest"], "identical" if r["digest"] == rp.get("digest")
              else f"differs from recorded {rp.get('digest')}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("no violation on replay")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--dump")
    a = ap.parse_args()
    prop = a.prop.upper()
    if a.replay:
        return replay(prop, a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    print(f"{prop}: VERIF_SEED={seed} tier={tier}")
    mod = W.load(prop)
    nq, nt = mod.RUNS
    n = a.runs or (nq if tier == "quick" else nt)
    wall = 420 if tier == "quick" else 780
    nw = a.workers or min(getattr(mod, "WORKERS", 7), max(1, n))

    def plan_of(i):
        rnd = random.Random(f"{prop}/{seed}/{i}")
        p = mod.plan(rnd, i, tier)
        p["run"] = i
        return p

    stats, sigs, samples, viols, errors, digests = {}, set(), [], [], [], {}
    known = {}
    nontrivial = [0]
    done = [0]

    def on(job, r):
        if r.get("error"):
            errors.append((job["id"], r["error"]))
            return
        done[0] += 1
        digests[job["i"]] = r.get("digest")
        for k, v in (r.get("stats") or {}).items():
            if isinstance(v, (int, float)):
                stats[k] = stats.get(k, 0) + v
        if r.get("nontrivial", True):
            nontrivial[0] += 1
            sigs.add(r.get("sig"))
        if len(samples) < 3 and job["i"] < 12 and r.get("nontrivial", True):
            samples.append(dict(run=job["i"], plan=job["plan"], outcome=r.get("sig")))
        vs = ([r["viol"]] if r.get("viol") else []) + (r.get("known") or [])
        for v in vs:
            k = is_known(prop, v)
            if k:
                known.setdefault(k["id"], [k, 0])[1] += 1
            else:
                viols.append((job["i"], job["plan"], v, r.get("digest")))

    pool = Pool(prop, nw)
    rc = 0
    min_tried = 0
    vpath = None
    redo = []
    try:
        jobs = (dict(id=f"j{i}", i=i, plan=plan_of(i)) for i in range(n))
        pool.map(jobs, on, deadline=t0 + wall, stop=lambda: len(viols) >= 5 or len(errors) >= 5)

        # Determinism self-test: some of the runs once more, elsewhere
        if not viols and not errors:
            idx = [i for i in range(0, n, max(1, n//4)) if i in digests][:4]
            rs = run_many(pool, [plan_of(i) for i in idx], "d")
            redo = [(i, r.get("digest") == digests[i]) for i, r in zip(idx, rs)]

        if viols:
            viols.sort(key=lambda v: v[0])
            i, plan, v, dg = viols[0]
            best, min_tried = minimise(mod, prop, pool, plan, v["cls"])
            r = run_many(pool, [best], "f")[0]
            if not same_class(prop, r, v["cls"]):
                best, r = plan, dict(viol=v, digest=dg)
            # a fresh process must fail in the same way
            p2 = Pool(prop, 1)
            r2 = run_many(p2, [best], "x")[0]
            p2.close()
            exact = bool(same_class(prop, r2, v["cls"]) and r2.get("digest") == r.get("digest"))
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            body = dict(property=prop, seed=seed, tier=tier, run=i, plan=best,
                        original_plan=plan, violation=r["viol"], digest=r.get("digest"),
                        reproduced_in_fresh_process=exact,
                        cmd=f"cd /verif && {PY} -m ntnsim.check {prop} --replay <this file>")
            h = hashlib.sha256(json.dumps(best, sort_keys=True).encode()).hexdigest()[:10]
            vpath = os.path.join(ROOT, "replays", f"{prop}-{h}.json")
            with open(vpath, "w") as f:
                json.dump(body, f, indent=1, default=W._json)
            print(f"{prop}: run {i} (seed {seed}): {v['cls']}: {fmt(r['viol']['msg'])}")
            print(f"{prop}: minimised plan ({min_tried} runs tried, fresh process "
                  f"{'reproduces' if exact else 'DIFFERS'}): {json.dumps(best)[:600]}")
            print(f"VIOLATION property={prop} replay={vpath}")
            rc = 1
        elif errors or done[0] == 0:
            for i, e in errors[:3]:
                print(f"{prop}: harness error in {i}: {e}", file=sys.stderr)
            rc = 2
    finally:
        pool.close()

    for kid, (k, c) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {k['text']} (seen in {c} runs)")
    el = time.time() - t0
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith("probe.")}
    other = {k: v for k, v in stats.items() if not k.startswith(("fault.", "probe."))}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=done[0], distinct_nontrivial=len(sigs), rule=mod.RULE,
                  samples=samples or [dict(note="no run completed")],
                  seeds=f"run i uses the seed '{prop}/{seed}/i', i < {n}",
                  runs_per_hour=round(done[0]*3600/max(el, 1e-3)),
                  simulated_seconds=round(other.pop("sim_s", 0.0), 6),
                  faults_injected=faults, probes=probes, counters=other,
                  distinct_measure=getattr(mod, "MEASURE", "run signatures"),
                  real_components=mod.REAL, stubbed_components=mod.STUB,
                  determinism=dict(rerun=len(redo), identical=sum(ok for _, ok in redo)),
                  workers=nw, minimisation_runs=min_tried,
                  known_findings={k: c for k, (_, c) in known.items()}),
              assumptions=getattr(mod, "ASSUMES", []),
              wall_s=round(el, 2), violations=len(viols))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=W._json)
    bad = [i for i, ok in redo if not ok]
    if bad:
        print(f"{prop}: warning: runs {bad} were not bit-identical when repeated")
    if rc == 0:
        print(f"{prop}: held on {done[0]} runs ({len(sigs)} distinct) in {el:.1f} s; "
              f"faults {faults}")
    return rc


if __name__ == "__main__":
    sys.exit(main())
