"""C11: byte-range arithmetic agrees with sets of bit positions.  Offsets are in bits (eighths of a byte)."""
from common import call, expect, expect_same, must_raise

INF = 10 ** 6  # stands for the end of an open range, beyond every generated point


def gen(d):
    top = d.choice([8, 24, 80])
    aligned = d.chance(1, 3)

    def point():
        return d.int(0, top // 8) * 8 if aligned else d.int(0, top)

    def one():
        if d.chance(1, 8):
            return [point(), None]
        a, b = sorted((point(), point()))
        return [a, b]

    ranges = d.list(one, 0, 6)
    if d.chance(1, 3) and ranges:  # adjacent and repeated ranges are where comparisons go wrong
        r = d.choice(ranges)
        if r[1] is not None:
            ranges.append([r[1], r[1] + d.int(0, 16)])
        ranges.append([r[0], d.choice([r[0], r[1], None])])
    return {"ranges": ranges, "perm": d.perm(range(len(ranges))), "points": [point() for _ in range(3)],
            "close": d.int(0, 2 * top), "split": d.int(0, 8)}


def classify(case):
    rs = case["ranges"]
    labels = {"n=%d" % len(rs)}
    if any(b is None for a, b in rs):
        labels.add("open")
    if any(a == b for a, b in rs):
        labels.add("empty-range")
    if _overlaps(rs):
        labels.add("overlapping")
    elif len(rs) > 1:
        labels.add("disjoint")
    return labels, len(rs) >= 2


def _bits(r):
    return (r[0], INF if r[1] is None else r[1])


def _inter(r, s):
    (a, b), (c, e) = _bits(r), _bits(s)
    return max(a, c) < min(b, e)


def _overlaps(rs):
    return any(_inter(rs[i], rs[j]) for i in range(len(rs)) for j in range(i))


def f(bits):
    if bits is None:
        return None
    return bits // 8 if bits % 8 == 0 else bits / 8.0


def check(case):
    from infi.instruct.buffer.range import SequentialRange, SequentialRangeList
    rs = case["ranges"]
    objs = [call("SequentialRange(%r, %r)" % (f(a), f(b)), SequentialRange, f(a), f(b)) for a, b in rs]
    for (a, b), o in zip(rs, objs):
        n = "SequentialRange(%r, %r)" % (f(a), f(b))
        expect(o.is_open() == (b is None), "%s.is_open()", n)
        expect(o.byte_length() == (None if b is None else (b - a) / 8.0), "%s.byte_length() is %r", n, o.byte_length())
        expect(o.max_stop() == f(b), "%s.max_stop() is %r", n, o.max_stop())
        sl = o.to_slice()
        expect(sl.start == f(a) and sl.stop == f(b) and sl.step in (None, 1), "%s.to_slice() is %r", n, sl)
        for p in case["points"] + [a, a + 1, b or 0, max(0, (b or 1) - 1)]:
            want = a <= p and (b is None or p < b)
            expect(bool(o.contains(f(p))) == want, "%s.contains(%r) should be %r", n, f(p), want)
        close = case["close"]
        if close >= a:
            c = call(n + ".to_closed", o.to_closed, f(close))
            expect((c.start, c.stop) == (f(a), f(close if b is None else b)), "%s.to_closed(%r) is %r", n, f(close), c)
            expect(o.is_open() == (b is None), "to_closed changed the range")
        else:
            must_raise("%s.to_closed(%r)" % (n, f(close)), Exception, o.to_closed, f(close))
    if any(a > 0 for a, b in rs):
        a = max(a for a, b in rs)
        must_raise("inverted range", Exception, SequentialRange, f(a), f(a - 1))
        must_raise("negative range", Exception, SequentialRange, -f(a), f(a))

    for i, a in enumerate(objs):
        for j, b in enumerate(objs):
            n = "%r / %r" % (rs[i], rs[j])
            expect(bool(a.overlaps(b)) == _inter(rs[i], rs[j]), "overlap of %s (bits) should be %r", n, _inter(rs[i], rs[j]))
            ka, kb = _bits(rs[i]), _bits(rs[j])
            expect((a == b) == (ka == kb), "equality of %s", n)
            expect((a != b) == (ka != kb), "inequality of %s", n)
            expect(sum((bool(a < b), bool(a == b), bool(b < a))) == 1, "ordering of %s is not a trichotomy", n)
            if ka[0] != kb[0]:
                expect(bool(a < b) == (ka[0] < kb[0]), "ordering of %s is not by start", n)
            expect(bool(a <= b) == (bool(a < b) or bool(a == b)) and bool(a >= b) == bool(b <= a)
                   and bool(a > b) == bool(b < a), "ordering of %s is inconsistent", n)

    l = SequentialRangeList(objs)
    is_open = any(b is None for a, b in rs)
    want_len = None if is_open else sum(b - a for a, b in rs) / 8.0
    want_over = _overlaps(rs)
    want_max = None if is_open else f(max([0] + [b for a, b in rs]))
    for lst, what in ((l, "list"), (SequentialRangeList(objs[i] for i in case["perm"]), "permuted list")):
        expect(bool(lst.is_open()) == is_open, "%s.is_open()", what)
        expect(lst.byte_length() == want_len, "%s.byte_length() of %r is %r", what, rs, lst.byte_length())
        expect(bool(lst.has_overlaps()) == want_over, "%s.has_overlaps() of %r should be %r", what, rs, want_over)
        expect(lst.max_stop() == want_max, "%s.max_stop() of %r is %r", what, rs, lst.max_stop())
        s = call("sorted", lst.sorted)
        expect(isinstance(s, SequentialRangeList), "sorted() is not a range list")
        got = [(r.start, r.stop) for r in s]
        expect(sorted(map(repr, got)) == sorted(repr((r.start, r.stop)) for r in objs), "sorted() is not a permutation")
        starts = [r.start for r in s]
        expect(starts == sorted(starts), "sorted() of %r is not sorted by start: %r", rs, got)
    expect([(r.start, r.stop) for r in l] == [(f(a), f(b)) for a, b in rs], "the list was modified")

    close = case["close"]
    if all(a <= close for a, b in rs):
        c = call("to_closed", l.to_closed, f(close))
        expect(isinstance(c, SequentialRangeList), "to_closed() is not a range list")
        expect([(r.start, r.stop) for r in c] == [(f(a), f(close if b is None else b)) for a, b in rs], "to_closed of %r", rs)
        expect(not c.is_open() and l.is_open() == is_open, "to_closed changed the list or is open")
    else:
        must_raise("to_closed", Exception, l.to_closed, f(close))

    # byte_offset: where the n-th byte of the concatenated ranges ends
    flat = []
    for a, b in rs:
        flat.extend(range(a, a + 200 if b is None else b))
        if b is None:
            break
    if rs:
        for n in set([0, 1, len(flat), len(flat) // 2, len(flat) // 3, 8] + case["points"]):
            if n == 0:
                expect(l.byte_offset(0) == f(rs[0][0]), "byte_offset(0) of %r is %r", rs, l.byte_offset(0))
            elif n <= len(flat):
                expect(call("byte_offset", l.byte_offset, f(n)) == f(flat[n - 1] + 1), "byte_offset(%r) of %r is %r", f(n), rs, l.byte_offset(f(n)))
            elif not is_open:
                must_raise("byte_offset(%r) of %r" % (f(n), rs), Exception, l.byte_offset, f(n))

    k = min(case["split"], len(objs))
    left, right = SequentialRangeList(objs[:k]), SequentialRangeList(objs[k:])
    sums = [call(n, f) for n, f in (("list + list", lambda: left + right), ("list + plain list", lambda: left + list(right)),
                                    ("plain list + list", lambda: list(left) + right), ("sum", lambda: sum([left, right], [])))]
    for s in sums:
        expect(isinstance(s, SequentialRangeList) and len(s) == len(l) and all(x == y for x, y in zip(s, l)), "concatenation of %r at %d", rs, k)
        expect(s.byte_length() == want_len and s.max_stop() == want_max, "concatenation changed the verdicts")
    expect(len(left) == k and len(right) == len(objs) - k, "concatenation modified its operands")
