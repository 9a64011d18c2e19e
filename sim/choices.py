"""Choice streams: the only source of randomness of a simulated run.

Every decision (generated input, scheduling, fault) is an integer drawn from a named stream and
recorded.  0 is always the simplest alternative, so a run is shrunk by deleting, zeroing and
lowering recorded integers, and replayed by feeding the recorded integers back in.  An exhausted
replay stream yields 0.
"""
import random


class Choices:
    def __init__(self, seed, replay=None):
        self.seed = seed
        self.replay = replay
        self.rec = {}
        self._rng = {}
        self._pos = {}

    def draw(self, stream, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        rec = self.rec.get(stream)
        if rec is None:
            rec = self.rec[stream] = []
            self._pos[stream] = 0
            if self.replay is None:
                self._rng[stream] = random.Random("%s/%s" % (self.seed, stream))
        if self.replay is None:
            v = self._rng[stream].randrange(n)
        else:
            src = self.replay.get(stream, ())
            pos = self._pos[stream]
            v = src[pos] % n if pos < len(src) else 0
            self._pos[stream] = pos + 1
        rec.append(v)
        return v

    def chance(self, stream, p):
        """True with probability p; False is the simplest outcome."""
        return self.draw(stream, 1000) >= 1000 - int(p * 1000)

    def pick(self, stream, seq):
        return seq[self.draw(stream, len(seq))]

    def between(self, stream, lo, hi):
        """An integer in [lo, hi], lo the simplest."""
        return lo + self.draw(stream, hi - lo + 1)

    def shuffle(self, stream, seq):
        """A permutation; all zero draws give the identity."""
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.draw(stream, len(seq))))
        return out

    def subset(self, stream, seq, p=0.5):
        return [x for x in seq if self.chance(stream, p)]

    def weighted(self, stream, pairs):
        """pairs: [(weight, value)], first one the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(stream, total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def trimmed(self):
        """Recorded streams without trailing zeros."""
        out = {}
        for k, v in self.rec.items():
            n = len(v)
            while n and v[n - 1] == 0:
                n -= 1
            if n:
                out[k] = v[:n]
        return out
