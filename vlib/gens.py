"""Scenario generation per property (data, call styles, compositions)."""
import collections, json
from .trees import *

FILL = (0, 1, 2, 4, 6, 8, 9, 12, 13, 14, 15)


def ctx(trees, n, bas, rng, k=3):
    """context line for trees of length n (same root-of-unity order), or None if there is no suitable small field"""
    m0 = 8
    for t in trees:
        o = order(t)
        m0 = m0 * o // math.gcd(m0, o)
    f = field(m0, n)
    if f is None:
        return None
    p, m, z, qs = f
    rs = [rng.randrange(2, p - 1) for _ in range(k)]
    return 'ctx kind=fp n=%d p=%d m=%d z=%d rs=%s bas=%d qs=%s' % (n, p, m, z, ','.join(map(str, rs)), bas, ','.join(map(str, qs)))


def group(trees, n, per=400):
    """trees of length n grouped by root order"""
    g = collections.defaultdict(list)
    for t in trees:
        g[order(t)].append(t)
    # merge groups while the combined order stays small
    out = []
    for o in sorted(g):
        ts = g[o]
        if out:
            l = out[-1][0] * o // math.gcd(out[-1][0], o)
            if l <= 20000 and len(out[-1][1]) + len(ts) <= per:
                out[-1] = (l, out[-1][1] + ts)
                continue
        for i in range(0, len(ts), per):
            out.append((o, ts[i:i + per]))
    return [x[1] for x in out]


NVEC = 16      # vectors per context


def EDGE(n, rng, m):
    """ids 6..16: zero; a single last cell; and structured data that a data-dependent shortcut might mistake for something else
    (m: how many cells at most)"""
    if n == 0:
        return []
    v = lambda: rng.choice([-5, -4, -3, -2, -1, 1, 2, 3, 4, 5])
    pos = list(range(n)) if n <= m else sorted(rng.sample(range(n), m))
    alt = {j: 2 if j % 2 == 0 else -2 for j in pos}
    even, odd, zsum, half, one = {}, {}, {}, {}, {}
    for j in pos[:(len(pos) + 1) // 2]:
        even[j] = even[(n - j) % n] = v()
        if j != (n - j) % n:
            odd[j] = v()
            odd[n - j] = -odd[j]
    for j in pos:
        zsum[j] = v()
        half[j if j >= n // 2 else n - 1 - j] = v()
        one[j] = 1
    zsum[pos[0]] -= sum(zsum.values())
    one[rng.choice(pos)] = 2
    zfirst = {j: v() for j in pos if j > 0}
    # the first cell and the rest agree, in value or in sum, up to sign; the data repeat with a period, up to sign
    a, g = v(), rng.choice([1, 1, -1])
    twin = {0: a}
    if n > 1:
        twin[rng.randrange(1, n)] = a * g
    first = {j: v() for j in pos if j > 0}
    first[0] = g * sum(first.values())
    q = rng.choice([d for d in range(1, min(n, 12) + 1) if n % d == 0])
    u, g = [v() for _ in range(q)], rng.choice([1, -1])
    per = {j: u[j % q] * g ** (j // q) for j in pos}
    f = lambda d: ';'.join('%d:%d' % x for x in sorted(d.items()))
    return ['vec id=6 pairs=', 'vec id=7 pairs=%d:-3' % (n - 1)] + ['vec id=%d pairs=%s' % (i, f(d)) for i, d in enumerate((alt, even, odd, zsum, rng.choice([half, one]), zfirst, twin, first, per), 8)]


def vecs_fp(n, rng, big=600):
    """vector ids 1.. with a variety of shapes"""
    r = []
    if n <= big:
        r += ['vec id=1 rand=%d' % rng.randrange(1 << 30), 'vec id=2 rand=%d' % rng.randrange(1 << 30), 'vec id=3 const=%d' % rng.randrange(1, 1000),
              'vec id=4 sparse=%d count=3' % rng.randrange(1 << 30), 'vec id=5 rand=%d amp=2' % rng.randrange(1 << 30)]
    else:
        for i in range(1, 6):
            r.append('vec id=%d sparse=%d count=%d' % (i, rng.randrange(1 << 30), 3 + 2 * i))
    return r + EDGE(n, rng, big if n <= big else 12)


def vecs_fl(n, rng, dense=128):
    r = []
    if n <= dense:
        amp = max(1, min(8, 8000 // max(1, n * n))) if n > 20 else 8
        r += ['vec id=1 rand=%d amp=%d' % (rng.randrange(1 << 30), amp), 'vec id=2 rand=%d amp=%d' % (rng.randrange(1 << 30), amp),
              'vec id=3 const=3', 'vec id=4 sparse=%d count=3 amp=50' % rng.randrange(1 << 30), 'vec id=5 pairs=%d:1' % rng.randrange(n)]
    else:
        for i in range(1, 6):
            r.append('vec id=%d sparse=%d count=%d amp=9' % (i, rng.randrange(1 << 30), 2 * i + 1))
    return r + EDGE(n, rng, dense if n <= dense else 10)


def by_len(recs):
    d = collections.defaultdict(list)
    for r in recs:
        d[r['n']].append(r['t'])
    return d


def fp_blocks(trees_by_n, calls, rng, basmax=300, per=400, dense=600):
    """calls(n, i, t, rng) -> list of call argument strings for instance number i"""
    out = []
    for n in sorted(trees_by_n):
        for ts in group(trees_by_n[n], n, per):
            c = ctx(ts, n, 1 if n <= basmax else 0, rng)
            if c is None:
                # too many different roots of unity: one tree at a time
                for t in ts:
                    c1 = ctx([t], n, 1 if n <= basmax else 0, rng)
                    if c1:
                        out.append(fp_block(c1, [t], n, calls, rng, dense))
                continue
            out.append(fp_block(c, ts, n, calls, rng, dense))
    return out


def fp_block(c, ts, n, calls, rng, dense=600):
    b = [c] + vecs_fp(n, rng, dense)
    for i, t in enumerate(ts):
        b.append('inst ty=fp id=i%d t=%s' % (i, t))
        b += calls(n, 'i%d' % i, t, rng, 'fp')
    return b


def fl_blocks(trees_by_n, calls, rng, types=('f64', 'f32'), per=60, dense=128):
    out = []
    for n in sorted(trees_by_n):
        ts = trees_by_n[n]
        for a in range(0, len(ts), per):
            b = ['ctx kind=fl n=%d' % n] + vecs_fl(n, rng, dense)
            for i, t in enumerate(ts[a:a + per]):
                for ty in types:
                    b.append('inst ty=%s id=%s%d t=%s' % (ty, ty, i, t))
                    b += calls(n, '%s%d' % (ty, i), t, rng, ty)
            out.append(b)
    return out


def sampled_positions(n, rng, k=220):
    s = {0, 1, 2, 3, n - 1, n - 2, n - 3, n // 2, n // 3, n // 4, n // 2 + 1} | {2 ** e for e in range(30) if 2 ** e < n} | {2 ** e - 1 for e in range(30) if 2 ** e <= n}
    while len(s) < k:
        s.add(rng.randrange(n))
    return sorted(x for x in s if 0 <= x < n)


def fl_big_blocks(trees_by_n, calls, rng, types=('f64', 'f32')):
    """large lengths in floating point; only a sample of the result's cells is logged and judged"""
    out = []
    for n in sorted(trees_by_n):
        ks = ',' .join(map(str, sampled_positions(n, rng))) if n > 400 else ''
        b = ['ctx kind=fl n=%d%s' % (n, ' ks=' + ks if ks else '')] + vecs_fl(n, rng)
        for i, t in enumerate(trees_by_n[n]):
            for ty in types:
                b.append('inst ty=%s id=%s%d t=%s' % (ty, ty, i, t))
                b += calls(n, '%s%d' % (ty, i), t, rng, ty)
        out.append(b)
    return out


def sample(ts, k, rng):
    ts = sorted(ts)
    return ts if len(ts) <= k else rng.sample(ts, k)


def scr(rng):
    return rng.choice(['', ' s=+0', ' s=+1', ' s=+%d' % rng.randrange(2, 40), ' s=x2']) + al(rng)


def al(rng):
    """where the buffer, the output and the scratch start, in elements after a 64-byte boundary"""
    return rng.choice(['', ' al=%d' % rng.randrange(4096), ' al=%d' % rng.choice([1, 16, 256, 272, 273, 257, 0x222, 0x444, 0x888])])


# lengths that exercise every algorithm at sizes the unit tests do not reach
BIG = [96, 100, 108, 112, 120, 125, 127, 128, 144, 160, 162, 180, 192, 200, 211, 216, 240, 243, 250, 256, 257, 288, 300, 320, 337, 360, 384, 400, 432, 480, 500, 512]
HUGE = [576, 625, 640, 720, 729, 768, 900, 1000, 1009, 1024, 1280, 1536, 2048, 3072, 3125, 4096, 5000, 6561, 8192]
VAST = [10000, 16384, 20736, 32768, 65536, 81920, 98304, 131072]
# primes whose Rader transform needs roots of unity of an order too large for the finite fields: floats only
RADER = [601, 1201, 2003, 2917, 4099, 7919, 12289, 18433, 40961, 65537, 114689, 147457, 163841]
# strong pseudoprimes to bases 2 (and 3), Fermat pseudoprimes: what a careless primality test lets through
SPSP = [2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 121, 703, 1541, 1891, 341, 561, 645, 1105, 1373653, 1530787, 1987021]
