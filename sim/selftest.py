"""Self-test of the simulator: the same seed is the same execution.

For a sample of runs of every property: executed twice in one process, again in a fresh process, again in
another order (so that nothing leaks from one run into the next), and under another number of workers, the
event digests and verdicts must be equal; a different seed must give a different execution; and a run repeated
from its recorded choices must be the run they were recorded from.  Exit 0 if all hold, 1 otherwise.

usage: check --selftest [ids] [--runs N]
"""
import json
import os
import random
import sys
import time

from . import runner


def key(r):
    return r["digest"], r["v"], r.get("cls"), r.get("msg")


def same(what, prop_id, reqs, a, b):
    bad = [(q, x, y) for q, x, y in zip(reqs, a, b) if key(x) != key(y)]
    for q, x, y in bad[:3]:
        print("  NOT REPEATABLE (%s): %s config %s: %r and %r" % (what, q["seed"], q["config"], key(x)[:2], key(y)[:2]))
    return len(bad)


def one(prop_id, n):
    prop = runner.load_prop(prop_id)
    seed = 1
    plan = runner.plan_runs(prop, seed, n)
    failures = 0
    digests = set()
    t0 = time.time()
    for g in range(runner.GROUPS):
        reqs = [r for r in plan if r["group"] == g]
        w = runner.Worker(prop_id, runner.hashseed(seed, g))
        try:
            first = w.run(reqs)
            again = w.run(reqs)
        finally:
            w.close()
        failures += same("same process", prop_id, reqs, first, again)
        order = list(range(len(reqs)))
        random.Random("order-%d" % g).shuffle(order)
        w = runner.Worker(prop_id, runner.hashseed(seed, g))
        try:
            mixed = w.run([dict(reqs[i], want_streams=True) for i in order])
            part = [(i, r) for i, r in zip(order, mixed)][:10]
            replayed = w.run([dict(reqs[i], streams=r["streams"]) for i, r in part])
        finally:
            w.close()
        failures += same("fresh process, other order", prop_id, [reqs[i] for i in order], [first[i] for i in order], mixed)
        failures += same("from recorded choices", prop_id, [reqs[i] for i, _ in part], [r for _, r in part], replayed)
        digests.update(r["digest"] for r in first)
    for workers in (2, 8):
        results, errors = runner.batch(prop_id, prop, plan, workers, seed, 600)
        if errors or len(results) != n:
            print("  %d workers: %d of %d runs, %s" % (workers, len(results), n, errors[:1]))
            failures += 1
        digests_w = {r["digest"] for r in results}
        if digests_w != digests:
            print("  NOT REPEATABLE (%d workers): %d digests differ" % (workers, len(digests_w ^ digests)))
            failures += 1
    distinct = len(digests)
    if distinct < n * 0.5:
        print("  only %d distinct executions in %d seeds" % (distinct, n))
        failures += 1
    print("%s: %d runs x 4 executions, %d distinct, %s (%.0f s)" % (
        prop_id, n, distinct, "repeatable" if not failures else "%d FAILURES" % failures, time.time() - t0), flush=True)
    return failures


def main(argv):
    n = 120
    if "--runs" in argv:
        k = argv.index("--runs")
        n = int(argv[k + 1])
        del argv[k:k + 2]
    ids = argv or [c["property"] for c in json.load(open(os.path.join(runner.HERE, "MANIFEST.json")))["checks"]]
    return 1 if sum(one(i, n) for i in ids) else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
