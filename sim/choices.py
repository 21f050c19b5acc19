"""Recorded choice streams: every decision of a simulated run is an integer drawn here.

In search mode values come from one PRNG; in replay mode from a recorded list (missing values are 0).
By convention 0 is always the simplest alternative (no fault, no preemption, smallest size), so that a
recorded list can be minimised by deleting and lowering entries.
"""
import random as _random

_Random = _random.Random  # the real class; the seams replace random.Random later


class Stream:
    __slots__ = ("rng", "replay", "pos", "out")

    def __init__(self, seed=None, replay=None):
        self.rng = _Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.out = []

    def decide(self, n, pick=None):
        """An integer in [0, n). `pick(rng)` chooses it in search mode (default uniform)."""
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if n is not None and v >= n:
                v %= n
        elif n == 1:
            v = 0
        else:
            v = pick(self.rng) if pick is not None else self.rng.randrange(n)
        self.out.append(v)
        return v


class Gen(Stream):
    """Workload and fault choices."""

    __slots__ = ()

    def int(self, lo, hi):
        return lo + self.decide(hi - lo + 1)

    def small(self, lo, hi):
        """Biased to small values."""
        n = hi - lo + 1
        return lo + self.decide(n, lambda r: min(r.randrange(n), r.randrange(n)))

    def bool(self, p=0.5):
        return self.decide(2, lambda r: 1 if r.random() < p else 0) == 1

    def choice(self, seq):
        return seq[self.decide(len(seq))]

    def weighted(self, pairs):
        """pairs: [(value, weight)...]; the first is the simplest."""
        def pick(r):
            x = r.random() * sum(w for _, w in pairs)
            for i, (_, w) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.decide(len(pairs), pick)][0]

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.decide(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def subset(self, seq, p):
        return [x for x in seq if self.bool(p)]


def minimise(case_lists, still_fails, budget):
    """Greedy minimisation of a list of integer lists.

    still_fails(lists) -> bool.  budget() -> bool says whether to continue.
    """
    lists = [list(x) for x in case_lists]

    def trimmed(x):
        x = list(x)
        while x and x[-1] == 0:
            x.pop()
        return x

    lists = [trimmed(x) for x in lists]
    changed = True
    while changed and budget():
        changed = False
        for li in range(len(lists)):
            # zero / delete chunks
            for mode in ("cut", "zero"):
                size = max(1, len(lists[li]) // 2)
                while size >= 1 and budget():
                    i = 0
                    while i < len(lists[li]) and budget():
                        cur = lists[li]
                        chunk = cur[i:i + size]
                        if mode == "zero":
                            if not any(chunk):
                                i += size
                                continue
                            cand = cur[:i] + [0] * len(chunk) + cur[i + size:]
                        else:
                            cand = cur[:i] + cur[i + size:]
                        cand = trimmed(cand)
                        if cand != cur:
                            trial = lists[:li] + [cand] + lists[li + 1:]
                            if still_fails(trial):
                                lists = trial
                                changed = True
                                if mode == "cut":
                                    continue
                        i += size
                    size //= 2
            # lower single values
            i = 0
            while i < len(lists[li]) and budget():
                v = lists[li][i]
                for nv in (0, 1, v // 2, v - 1):
                    if 0 <= nv < v:
                        trial = lists[:li] + [lists[li][:i] + [nv] + lists[li][i + 1:]] + lists[li + 1:]
                        if still_fails(trial):
                            lists = trial
                            changed = True
                            break
                i += 1
    return [trimmed(x) for x in lists]
