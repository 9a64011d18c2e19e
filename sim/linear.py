"""Linearizability of a small concurrent history (Wing & Gong with memoisation)."""


class History:
    def __init__(self):
        self.now = 0
        self.ops = []

    def call(self, who, op, args, fn, post=lambda x: x):
        """Run fn as one operation of the history and record its result (post-processed)."""
        self.now += 1
        rec = [who, op, args, self.now, None, None]
        self.ops.append(rec)
        out = post(fn())
        self.now += 1
        rec[4], rec[5] = self.now, out
        return out

    def text(self):
        return "; ".join("%s %s%r -> %r [%d,%s]" % (o[0], o[1], o[2], o[5], o[3], o[4]) for o in self.ops)


def linearizable(history, state, apply, budget=200_000):
    """apply(state, op, args) -> (new state, result); states hashable.  An operation without a
    response (interrupted) may have happened or not.  None: gave up (budget)."""
    ops = history.ops
    n = len(ops)
    inf = 1 << 60
    must = 0
    for i, o in enumerate(ops):
        if o[4] is not None:
            must |= 1 << i
    seen = set()
    stack = [(0, state)]
    while stack:
        done, st = stack.pop()
        if done & must == must:
            return True
        if (done, st) in seen:
            continue
        seen.add((done, st))
        budget -= 1
        if budget < 0:
            return None
        horizon = min([ops[i][4] or inf for i in range(n) if not done >> i & 1])
        for i in range(n):
            if done >> i & 1 or ops[i][3] > horizon:
                continue
            new, res = apply(st, ops[i][1], ops[i][2])
            if ops[i][4] is None or res == ops[i][5]:
                stack.append((done | 1 << i, new))
    return False
