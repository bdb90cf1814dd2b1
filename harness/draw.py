"""The only source of choices for case generators: a thin layer over Hypothesis' draw()."""
import functools
from hypothesis import strategies as st


@functools.lru_cache(None)
def _ints(lo, hi):
    return st.integers(lo, hi)


@functools.lru_cache(None)
def _binary(lo, hi):
    return st.binary(min_size=lo, max_size=hi)


@functools.lru_cache(None)
def _sampled(n):
    return st.sampled_from(range(n))


@functools.lru_cache(None)
def _text(alphabet, lo, hi):
    return st.text(alphabet=alphabet, min_size=lo, max_size=hi)


@functools.lru_cache(None)
def _perms(n):
    return st.permutations(list(range(n)))


_BOOL = st.booleans()
_F64 = st.floats(width=64)
_F32 = st.floats(width=32)
_ANYTEXT = {}


class D(object):
    def __init__(self, draw):
        self.draw = draw

    def int(self, lo, hi):
        return lo if lo == hi else self.draw(_ints(lo, hi))

    def bool(self):
        return self.draw(_BOOL)

    def chance(self, num, den):
        """True with probability about num/den; shrinks towards False."""
        return self.draw(_sampled(den)) >= den - num

    def choice(self, seq):
        seq = seq if isinstance(seq, (list, tuple)) else list(seq)
        return seq[0] if len(seq) == 1 else seq[self.draw(_sampled(len(seq)))]

    def weighted(self, pairs):
        """pairs: [(weight, value)...]; the first is what shrinking aims at."""
        total = sum(w for w, _ in pairs)
        n = self.draw(_sampled(total))
        for w, v in pairs:
            if n < w:
                return v
            n -= w
        raise AssertionError

    def bytes(self, lo, hi):
        return self.draw(_binary(lo, hi))

    def text(self, alphabet, lo, hi):
        return self.draw(_text(alphabet, lo, hi))

    def perm(self, seq):
        seq = list(seq)
        if len(seq) < 2:
            return seq
        return [seq[i] for i in self.draw(_perms(len(seq)))]

    def list(self, fn, lo, hi):
        return [fn() for _ in range(self.int(lo, hi))]

    def float(self, width=64):
        return self.draw(_F64 if width == 64 else _F32)

    def json(self, depth=2):
        k = self.int(0, 6 if depth > 0 else 4)
        if k == 0:
            return self.int(-10, 10)
        if k == 1:
            return self.draw(st.text(max_size=6))
        if k == 2:
            return self.bool()
        if k == 3:
            return None
        if k == 4:
            return self.draw(st.floats(allow_nan=False, allow_infinity=False))
        if k == 5:
            return [self.json(depth - 1) for _ in range(self.int(0, 3))]
        return dict((self.draw(st.text(max_size=4)), self.json(depth - 1)) for _ in range(self.int(0, 3)))

    def uint(self, bits):
        """A value of the given bit width, with its edges well represented."""
        if bits == 0:
            return 0
        top = (1 << bits) - 1
        k = self.int(0, 7)
        if k == 0:
            return self.choice([0, 1, top, top >> 1, (top >> 1) + 1])
        if k == 1:
            return 1 << self.int(0, bits - 1)
        if k == 2:
            return top - (1 << self.int(0, bits - 1))
        if k == 3:
            return self.int(0, min(top, 255))
        return self.int(0, top)

    def sint(self, bits):
        v = self.uint(bits)
        return v - (1 << bits) if v >> (bits - 1) else v
