"""C24: MinMax is a clipped interval arithmetic."""
import sys
from common import call, expect, expect_same, must_raise

TOP = sys.maxsize


def _num(d):
    k = d.int(0, 9)
    if k <= 3:
        return d.int(0, 40)
    if k == 4:
        return d.choice([0, TOP, TOP - 1, TOP + 1, TOP // 2, TOP // 2 + 1, 2 * TOP, -1, -TOP, -TOP - 2])
    if k == 5:
        return TOP + d.int(-5, 5)
    if k == 6:
        return d.int(-40, -1)
    if k == 7:
        return d.int(-3 * TOP, 3 * TOP)
    return d.int(0, TOP)


def gen(d):
    items = []
    for _ in range(3):
        mode = d.choice(["pair", "tuple", "list", "copy", "single", "none"])
        a, b = _num(d), _num(d)
        if a > b and d.chance(7, 8):
            a, b = b, a
        items.append([mode, a, b])
    return {"items": items}


def classify(case):
    labels = []
    for mode, a, b in case["items"]:
        labels.append(mode)
        if mode in ("pair", "tuple", "list", "copy") and a > b:
            labels.append("inverted")
        if a < 0:
            labels.append("negative")
        if b > TOP:
            labels.append("beyond-platform")
    return set(labels), len(set(map(str, case["items"]))) > 1


def clip(v):
    return min(max(v, 0), TOP)


def build(MinMax, mode, a, b):
    if mode == "none":
        return call("MinMax()", MinMax), (0, TOP)
    if mode == "single":
        if a > TOP:
            try:
                return MinMax(a), (TOP, TOP)
            except AssertionError:
                return None, None
        return call("MinMax(%d)" % a, MinMax, a), (clip(a), TOP)
    args = {"pair": (a, b), "tuple": ((a, b),), "list": ([a, b],), "copy": ((a, b),)}[mode]
    if a > b:
        must_raise("MinMax%r" % (args,), Exception, MinMax, *args)
        return None, None
    m = call("MinMax%r" % (args,), MinMax, *args)
    if mode == "copy":
        m = call("MinMax(MinMax)", MinMax, m)
    return m, (clip(a), clip(b))


def verify(m, want, what):
    expect_same((m.min, m.max), want, what)
    expect_same((m[0], m[1]), want, what + " by index")
    expect_same(tuple(m), want, what + " as tuple")
    expect(0 <= m.min <= m.max <= TOP, "%s: not a clipped interval: %r" % (what, tuple(m)))
    expect_same(bool(m.is_unbounded()), want[1] == TOP, what + ".is_unbounded()")
    call("str", str, m), call("repr", repr, m)


def check(case):
    from infi.instruct import MinMax
    from infi.instruct.base import ZERO_MIN_MAX, UNBOUNDED_MIN_MAX
    expect_same(tuple(ZERO_MIN_MAX), (0, 0), "zero bound")
    expect_same(tuple(UNBOUNDED_MIN_MAX), (0, TOP), "unbounded bound")
    ms = []
    for mode, a, b in case["items"]:
        m, want = build(MinMax, mode, a, b)
        if m is not None:
            verify(m, want, "MinMax[%s %d %d]" % (mode, a, b))
            ms.append((m, want))
    for m, w in ms:
        for z in (call("m + 0", lambda: m + ZERO_MIN_MAX), call("0 + m", lambda: ZERO_MIN_MAX + m)):
            verify(z, w, "sum with zero")
            expect(z == m, "sum with zero differs: %r %r", z, m)
        for n, v in ms:
            s = call("sum", lambda: m + n)
            want = (clip(w[0] + v[0]), clip(w[1] + v[1]))
            verify(s, want, "%r + %r" % (w, v))
            verify(m, w, "operand after sum")
            expect(s.min >= m.min and s.max >= m.max, "sum is not monotone")
            expect((m == n) == (w == v), "equality of %r and %r", w, v)
            for k, u in ms:
                t = call("sum3", lambda: (m + n) + k)
                t2 = call("sum3", lambda: m + (n + k))
                verify(t, (clip(w[0] + v[0] + u[0]), clip(w[1] + v[1] + u[1])), "sum of three")
                expect(t == t2, "sum is not associative: %r %r", t, t2)
    if ms:
        total = call("sum()", sum, [m for m, _ in ms], ZERO_MIN_MAX)
        verify(total, (clip(sum(w[0] for _, w in ms)), clip(sum(w[1] for _, w in ms))), "sum of list")
