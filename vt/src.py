"""Choice source: every random decision of a generator is one bounded integer.

Generators are written once against `Src`; the drivers differ in where the
integers come from (pseudo-random, Hypothesis, libFuzzer bytes, a recorded list
being shrunk).  0 is always the simplest alternative."""
import random


class Src:
    __slots__ = ('choices',)

    def __init__(self):
        self.choices = []

    def _draw(self, n):
        raise NotImplementedError

    # -- primitive
    def below(self, n):
        if n <= 1:
            return 0
        v = self._draw(n)
        self.choices.append(v)
        return v

    # -- derived
    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self, p=0.5):
        ''' True with probability p (False is the simple alternative). '''
        if p <= 0:
            return False
        if p >= 1:
            return True
        k = int(round(p * 64)) or 1
        return self.below(64) >= 64 - k

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def pick(self, *pairs):
        ''' pick((weight, value), ...) - the first value is the simplest '''
        tot = 0
        for w, _ in pairs:
            tot += w
        r = self.below(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def count(self, lo, hi, mean):
        ''' a length between lo and hi, geometric tail '''
        n = lo
        span = max(mean - lo, 0.25)
        p = span / (span + 1.0)
        while n < hi and self.bool(p):
            n += 1
        return n

    def list(self, fn, lo=0, hi=8, mean=3):
        out = []
        span = max(mean - lo, 0.25)
        p = span / (span + 1.0)
        while len(out) < lo:
            out.append(fn())
        while len(out) < hi and self.bool(p):
            out.append(fn())
        return out

    def text(self, alphabet, lo=0, hi=8, mean=3):
        return ''.join(self.list(lambda: self.choice(alphabet), lo, hi, mean))

    def bytes(self, alphabet, lo=0, hi=8, mean=3):
        return b''.join(self.list(lambda: self.choice(alphabet), lo, hi, mean))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def size(self, hi):
        ''' 0..hi, small values as likely as large ones (log-ish) '''
        if hi <= 0:
            return 0
        b = self.below(hi.bit_length() + 1)
        return min(hi, self.below(1 << b))


class RandomSrc(Src):
    __slots__ = ('_rnd', '_rng')

    def __init__(self, rng):
        super().__init__()
        self._rng = rng
        self._rnd = rng.random

    def _draw(self, n):
        return int(self._rnd() * n) if n < 1 << 40 else self._rng.randrange(n)


class ReplaySrc(Src):
    __slots__ = ('_pre', '_i')

    def __init__(self, prefix):
        super().__init__()
        self._pre = prefix
        self._i = 0

    def _draw(self, n):
        i = self._i
        self._i += 1
        if i < len(self._pre):
            v = self._pre[i]
            return v if v < n else n - 1
        return 0


class HypSrc(Src):
    __slots__ = ('_data', '_ints')

    def __init__(self, data, ints):
        super().__init__()
        self._data = data
        self._ints = ints

    def _draw(self, n):
        s = self._ints.get(n)
        if s is None:
            from hypothesis import strategies as st
            s = self._ints[n] = st.integers(0, n - 1)
        return self._data.draw(s)


class BytesSrc(Src):
    ''' choices decoded from fuzzer bytes '''
    __slots__ = ('_b', '_i')

    def __init__(self, b):
        super().__init__()
        self._b = b
        self._i = 0

    def _draw(self, n):
        b, i = self._b, self._i
        w = 1 if n <= 256 else 2 if n <= 65536 else 4
        chunk = b[i:i + w]
        self._i = i + w
        if not chunk:
            return 0
        return int.from_bytes(chunk, 'little') % n


def shrink(choices, still_fails, budget):
    """minimise a choice sequence; still_fails(list) -> used choices or None.
    budget: callable returning False when time is up"""
    best = list(choices)

    def better(a, b):
        return (len(a), a) < (len(b), b)

    def attempt(cand):
        nonlocal best
        if not budget():
            return False
        used = still_fails(cand)
        if used is not None and better(used, best):
            best = used
            return True
        return False

    improved = True
    while improved and budget():
        improved = False
        # delete spans
        k = max(1, len(best) // 2)
        while k >= 1 and budget():
            i = len(best) - k
            while i >= 0 and budget():
                if i + k <= len(best) and attempt(best[:i] + best[i + k:]):
                    improved = True
                    i = min(i, len(best)) - k if k > 1 else i - 1
                    if i + k > len(best):
                        i = len(best) - k
                    continue
                i -= max(1, k // 2) if k > 1 else 1
            k //= 2
        # delete a span and decrement the choice before it (list lengths)
        for i in range(len(best)):
            if i >= len(best) or not budget():
                break
            if best[i] > 0:
                for k in (1, 2, 3, 4, 8):
                    if attempt(best[:i] + [best[i] - 1] + best[i + 1 + k:]):
                        improved = True
                        break
        # zero spans
        for k in (8, 4, 2):
            for i in range(0, max(0, len(best) - k + 1), k):
                if not budget():
                    break
                if any(best[i:i + k]) and attempt(best[:i] + [0] * k + best[i + k:]):
                    improved = True
        # minimise each choice
        i = 0
        while i < len(best) and budget():
            v = best[i]
            if v > 0:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, v
                    while lo + 1 < hi and budget():
                        mid = (lo + hi) // 2
                        if i < len(best) and attempt(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                            improved = True
                        else:
                            lo = mid
            i += 1
    return best
