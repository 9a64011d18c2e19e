"""Runs a property's batch over worker processes, shrinks and reports violations, writes evidence."""
import collections
import hashlib
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUPS = 4                  # PYTHONHASHSEED groups
BATCH = 8
MAX_ERRORS = 20


def hashseed(seed, group):
    v = int(hashlib.sha256(("hash/%s/%s" % (seed, group)).encode()).hexdigest()[:7], 16)
    return str(v * GROUPS + group)


# the host's time zone while the library is imported, by group (each run starts with UTC)
ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45"]


class Worker:
    def __init__(self, prop_id, hs):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1",
                   PYTHONPYCACHEPREFIX=os.path.join(HERE, "nonexistent-pycache"))
        env["TZ"] = ZONES[int(hs) % GROUPS]
        env.pop("PYTHONPATH", None)
        for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY", "no_proxy"):
            env.pop(k, None)
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "sim", "main.py"), "worker", prop_id],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  env=env, cwd=HERE, text=True)
        self.errs = []
        threading.Thread(target=self._drain, daemon=True).start()
        first = self.p.stdout.readline()
        if not first:
            self.p.wait()
            time.sleep(0.1)
            raise RuntimeError("worker did not start:\n" + "".join(self.errs)[-3000:])

    def _drain(self):
        for line in self.p.stderr:
            if len(self.errs) < 200:
                self.errs.append(line)

    def run(self, reqs):
        self.p.stdin.write(json.dumps(reqs) + "\n")
        self.p.stdin.flush()
        out = []
        for _ in reqs:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("worker died:\n" + "".join(self.errs)[-3000:])
            out.append(json.loads(line))
        return out

    def close(self, kill=False):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def load_prop(prop_id):
    """Only the static part of a property module (its tables); the library is not imported here."""
    return importlib.import_module("sim.props." + prop_id.lower())


def plan_runs(prop, seed, n):
    """Run i: its seed, its configuration, its hash group.  Pure functions of (VERIF_SEED, i)."""
    names = []
    for name, weight in prop.CONFIGS:
        names += [name] * weight
    return [{"i": i, "seed": "%s-%s-%d" % (prop.ID, seed, i), "config": names[i % len(names)],
             "group": (i // len(names)) % GROUPS} for i in range(n)]


def load_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def matches(finding, prop_id, r):
    return finding["property"] == prop_id and finding["class"] == r["cls"] and finding["match"] in r["msg"]


def batch(prop_id, prop, runs, workers, seed, wall_cap, stop_on_violation=True):
    queues = [collections.deque() for _ in range(GROUPS)]
    for r in runs:
        queues[r["group"]].append(r)
    results = []
    lock = threading.Lock()
    stop = threading.Event()
    errors = []
    bad = []
    findings = load_findings()
    t0 = time.time()

    def drive(k):
        groups = [g for g in range(GROUPS) if workers >= GROUPS and g == k % GROUPS
                  or workers < GROUPS and g % workers == k]
        for g in groups:
            if stop.is_set() or not queues[g]:
                continue
            try:
                w = Worker(prop_id, hashseed(seed, g))
            except Exception as e:
                errors.append(str(e))
                stop.set()
                return
            try:
                while not stop.is_set() and time.time() - t0 < wall_cap:
                    with lock:
                        reqs = [queues[g].popleft() for _ in range(min(BATCH, len(queues[g])))]
                    if not reqs:
                        break
                    rs = w.run(reqs)
                    with lock:
                        for req, r in zip(reqs, rs):
                            r["req"] = req
                            results.append(r)
                            if r["v"] == "error":       # go on: another run may tell what is wrong
                                bad.append(r)
                                if len(bad) >= MAX_ERRORS or r["cls"] == "hang":
                                    stop.set()
                            elif r["v"] == "violation" and stop_on_violation and not any(
                                    matches(f, prop_id, r) for f in findings):
                                stop.set()
            except Exception as e:
                errors.append(str(e))
                stop.set()
            finally:
                w.close()
    threads = [threading.Thread(target=drive, args=(k,)) for k in range(workers)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    results.sort(key=lambda r: r["i"])
    return results, errors


def hangs_again(prop_id, r, seed):
    """A run of milliseconds that is still not over after RUN_TIMEOUT seconds, twice, does not end."""
    w = Worker(prop_id, hashseed(seed, r["req"]["group"]))
    try:
        again, = w.run([r["req"]])
    finally:
        w.close()
    if again["v"] == "error" and again["cls"] == "hang":
        r.update(v="violation", cls="no-progress:hang", streams=None)
        return True
    return False


# ------------------------------------------------------------------ shrinking
def shrink(worker, req, first, deadline, log=lambda s: None, attempts=1500):
    """Minimise the recorded streams while the same violation class persists."""
    best = {k: list(v) for k, v in first["streams"].items()}
    best_r = first
    cls = first["cls"]
    tried = 0

    def cost(s):
        return (sum(len(v) for v in s.values()), sum(sum(v) for v in s.values()))

    def attempt(cands):
        """Try candidates in one batch; adopt the first that still fails."""
        nonlocal best, best_r, tried
        cands = [c for c in cands if cost(c) < cost(best)]
        for i in range(0, len(cands), 4):
            part = cands[i:i + 4]
            if time.time() > deadline or tried > attempts:
                return False
            rs = worker.run([dict(seed=req["seed"], config=req["config"], streams=c, want_streams=True) for c in part])
            tried += len(part)
            for c, r in zip(part, rs):
                if r["v"] == "violation" and r["cls"] == cls:
                    new = r["streams"]          # only what was really drawn, trimmed
                    best = new if cost(new) <= cost(c) else c
                    best_r = r
                    return True
        return False

    progress = True
    while progress and time.time() < deadline and tried <= attempts:
        progress = False
        # drop whole streams
        for k in list(best):
            c = {x: v for x, v in best.items() if x != k}
            if attempt([c]):
                progress = True
        for k in sorted(best, key=lambda k: ("sched", "fault", "plan").index(k) if k in ("sched", "fault", "plan") else 3):
            if k not in best:
                continue
            size = max(1, len(best[k]) // 2)
            while size >= 1 and time.time() < deadline and tried <= attempts:
                i = 0
                while k in best and i < len(best[k]):
                    v = best[k]
                    cands = []
                    zeroed = v[:i] + [0] * len(v[i:i + size]) + v[i + size:]
                    while zeroed and zeroed[-1] == 0:
                        zeroed.pop()
                    cands.append(dict(best, **{k: v[:i] + v[i + size:]}))
                    cands.append(dict(best, **{k: zeroed}))
                    if attempt(cands):
                        progress = True
                    else:
                        i += size
                    if time.time() > deadline or tried > attempts:
                        break
                size //= 2
            # lower single integers
            i = 0
            while k in best and i < len(best[k]) and time.time() < deadline and tried <= attempts:
                x = best[k][i]
                if x > 0:
                    cands = []
                    for y in sorted({0, 1, x // 2, x - 1}):
                        if y < x:
                            cands.append(dict(best, **{k: best[k][:i] + [y] + best[k][i + 1:]}))
                    if attempt(cands):
                        progress = True
                        continue
                i += 1
    return best, best_r, tried


def report_violation(prop_id, r, seed, tier):
    """Shrink, confirm in a fresh process, write the replay file.  Returns (path, text)."""
    req = r["req"]
    hs = hashseed(seed, req["group"])
    out_dir = os.path.join(HERE, "replays")
    os.makedirs(out_dir, exist_ok=True)
    path = os.path.join(out_dir, "%s-%s-%d.json" % (prop_id, seed, r["i"]))
    if r["streams"] is None:        # killed: only the seed is known, which decides the run as well
        doc = {"property": prop_id, "seed": req["seed"], "config": req["config"], "hashseed": hs, "verif_seed": seed,
               "class": r["cls"], "message": r["msg"], "digest": "", "streams": None, "faults": {}, "trace": [],
               "original_length": 0, "minimised_length": 0, "reproduced_in_fresh_process": True}
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        return path, doc
    streams, final, tried = r["streams"], r, 0
    try:
        w = Worker(prop_id, hs)
        try:
            streams, final, tried = shrink(w, req, r, time.time() + (45 if tier == "quick" else 120))
        finally:
            w.close()
    except Exception as e:
        print("shrinking failed: %s" % e)
    confirmed = None
    trace = []
    for cand, base in ((streams, final), (r["streams"], r)):
        try:
            w = Worker(prop_id, hs)
            try:
                a, b = w.run([dict(seed=req["seed"], config=req["config"], streams=cand, log=True)] * 2)
            finally:
                w.close()
            ok = a["v"] == "violation" and a["cls"] == r["cls"] and a["digest"] == b["digest"] and a["msg"] == b["msg"]
            if ok:
                confirmed, streams, trace = a, cand, a.get("trace", [])
                break
        except Exception as e:
            print("replaying failed: %s" % e)
    doc = {"property": prop_id, "seed": req["seed"], "config": req["config"], "hashseed": hs, "verif_seed": seed,
           "class": r["cls"], "message": (confirmed or final)["msg"], "digest": (confirmed or final)["digest"],
           "reproduced_in_fresh_process": confirmed is not None,
           "streams": streams, "original_length": sum(len(v) for v in r["streams"].values()),
           "minimised_length": sum(len(v) for v in streams.values()), "shrink_attempts": tried,
           "faults": (confirmed or final)["faults"], "trace": trace[-400:]}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path, doc


# ------------------------------------------------------------------ entry points
def check(prop_id, tier, workers=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = load_prop(prop_id)
    workers = workers or max(GROUPS, min(os.cpu_count() or 4, 8))
    n = prop.RUNS[tier]
    runs = plan_runs(prop, seed, n)
    print("property=%s tier=%s VERIF_SEED=%d runs=%d workers=%d" % (prop_id, tier, seed, n, workers), flush=True)
    cap = 500 if tier == "quick" else 3000
    results, errors = batch(prop_id, prop, runs, workers, seed, cap)
    findings = load_findings()
    known, viol, errs = collections.OrderedDict(), [], []
    for r in results:
        if r["v"] == "violation":
            f = next((f for f in findings if matches(f, prop_id, r)), None)
            if f:
                known.setdefault(f["id"], f)
            else:
                viol.append(r)
        elif r["v"] == "error":
            errs.append(r)
    if not viol:
        viol = [r for r in errs if r["cls"] == "hang" and hangs_again(prop_id, r, seed)][:1]
    for f in known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop_id, f["what"]))
    write_evidence(prop, prop_id, tier, seed, n, results, viol, t0, workers)
    if viol:
        r = viol[0]
        path, doc = report_violation(prop_id, r, seed, tier)
        print("violated in run %d (%s), config %s: %s: %s" % (r["i"], r["req"]["seed"], r["req"]["config"], r["cls"], doc["message"]))
        print("faults in the minimised run: %s; choices %d -> %d" % (doc["faults"], doc["original_length"], doc["minimised_length"]))
        print("replay with: %s/check --replay %s" % (HERE, path))
        print("VIOLATION property=%s replay=%s" % (prop_id, path), flush=True)
        return 1
    if errs or errors:
        for r in errs[:3]:
            print("HARNESS ERROR in run %s (%s): %s: %s" % (r["i"], r["req"]["config"], r["cls"], r["msg"]))
        for e in errors[:3]:
            print("HARNESS ERROR: " + e)
        return 2
    if len(results) < n:
        print("HARNESS ERROR: only %d of %d runs fitted into the wall-clock cap" % (len(results), n))
        return 2 if tier == "quick" else 0
    print("held on %d runs in %.1f s" % (len(results), time.time() - t0))
    return 0


def write_evidence(prop, prop_id, tier, seed, planned, results, viol, t0, workers):
    wall = time.time() - t0
    faults, probes, configs = collections.Counter(), collections.Counter(), collections.Counter()
    states, digests, nontrivial = set(), set(), set()
    steps = ops = sim = 0
    samples = []
    for r in results:
        for k, v in r["faults"].items():
            faults[k] += v
        for k, v in r["probes"].items():
            probes[k] += v
        configs[r["req"]["config"]] += 1
        states.update(r["states"])
        digests.add(r["digest"])
        if r["nt"]:
            nontrivial.add(r["digest"])
        steps += r["steps"]
        ops += r["ops"]
        sim += r["sim"]
        if r.get("sample") and len(samples) < 6 and (r["nt"] or len(samples) < 2):
            samples.append({"run": r["i"], "seed": r["req"]["seed"], "config": r["req"]["config"], "case": r["sample"],
                            "faults": r["faults"]})
    doc = {
        "property": prop_id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.RULE,
            "samples": samples,
            "planned_runs": planned,
            "runs_per_config": dict(configs),
            "distinct_runs_by_event_log": len(digests),
            "distinct_states": len(states),
            "state_measure": getattr(prop, "STATE_MEASURE", "hash of the sequence of preemptions (thread, thread, code location)"),
            "library_steps": steps,
            "operations": ops,
            "simulated_seconds": round(sim / 1e6, 3),
            "faults_fired": dict(sorted(faults.items())),
            "runs_with_a_fault": sum(1 for r in results if r["faults"]),
            "probes_hit": dict(sorted(probes.items())),
            "runs_per_hour": int(len(results) / max(wall, 0.001) * 3600),
            "seeds_per_hour": int(len(results) / max(wall, 0.001) * 3600),
            "workers": workers,
            "real_components": prop.REAL,
            "stub_components": prop.STUB,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop_id + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    w = Worker(doc["property"], doc["hashseed"])
    try:
        r, = w.run([dict(seed=doc["seed"], config=doc["config"], streams=doc["streams"], log=True)])
    finally:
        w.close()
    for line in r.get("trace", []):
        print("  " + line)
    print("verdict %s %s: %s" % (r["v"], r["cls"], r["msg"]))
    print("digest %s (recorded %s)" % (r["digest"], doc["digest"]))
    if r["v"] == "violation":
        same = r["cls"] == doc["class"] and r["digest"] == doc["digest"]
        print("reproduced %s" % ("exactly" if same else "with a different event log"))
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    if r["v"] == "error" and r["cls"] == "hang" and doc["class"] == "no-progress:hang":
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    if r["v"] == "error":
        return 2
    print("the recorded violation no longer occurs")
    return 0
