"""Tree expressions (see spec/GenTrees.tla) and the finite fields used for them."""
import math, random
from functools import lru_cache

BUTTERFLIES = (1, 2, 3, 4, 5, 6, 8, 9, 16)
NXN = (2, 3, 4, 5, 6)


def parse(s):
    """-> (kind, arg, kids)"""
    pos = 0

    def num():
        nonlocal pos
        b = pos
        while pos < len(s) and s[pos].isdigit():
            pos += 1
        return int(s[b:pos])

    def node():
        nonlocal pos
        c = s[pos]
        pos += 1
        if c in 'nbrz':
            return (c, num(), [])
        if c == 'u':
            a = num(); pos += 1
            b = num(); pos += 1
            d = num()
            return ('u', (a, b, d), [])
        if c in 'ms':
            pos += 1
            a = node(); pos += 1
            b = node(); pos += 1
            return (c, 0, [a, b])
        if c in 'xp':
            k = num() if c == 'x' else 0
            pos += 1
            a = node(); pos += 1
            return (c, k, [a])
        raise ValueError(s)
    r = node()
    assert pos == len(s), s
    return r


def length(t):
    k, a, kids = t
    if k in 'nbrz':
        return a
    if k == 'u':
        return a[0]
    if k == 'm':
        return length(kids[0]) * length(kids[1])
    if k == 's':
        return 4 * length(kids[0])
    if k == 'x':
        return a * length(kids[0])
    if k == 'p':
        return length(kids[0]) + 1


def lens(t, acc=None):
    acc = set() if acc is None else acc
    acc.add(length(t))
    for c in t[2]:
        lens(c, acc)
    return acc


def order(expr):
    """order of the roots of unity that occur in the constants of this tree"""
    m = 8
    for l in lens(parse(expr)):
        if l:
            m = m * l // math.gcd(m, l)
    return m


@lru_cache(None)
def is_prime(n):
    if n < 2:
        return False
    d = 2
    while d * d <= n:
        if n % d == 0:
            return False
        d += 1
    return True


def factors(n):
    r, d = [], 2
    while d * d <= n:
        if n % d == 0:
            r.append(d)
            while n % d == 0:
                n //= d
        d += 1
    if n > 1:
        r.append(n)
    return r


@lru_cache(None)
def field(m0, n):
    """(p, m, z, factors of m): GF(p) with a primitive m-th root z, m a multiple of m0"""
    for (m, lo, hi) in ((2 * m0, max(12000, 40 * n), 46341), (m0, max(12000, 40 * n), 46341), (2 * m0, 46341, 1 << 22), (m0, 46341, 1 << 22), (m0, 1 << 22, 1 << 24)):
        k = (hi - 2) // m
        while k > 0:
            p = k * m + 1
            if p < lo:
                break
            if is_prime(p):
                qs = factors(p - 1)
                g = 2
                while any(pow(g, (p - 1) // q, p) == 1 for q in qs):
                    g += 1
                return p, m, pow(g, (p - 1) // m, p), factors(m)
            k -= 1
    return None


def rand_tree(n, depth, rng, rader=True):
    """a random legal tree of length n"""
    if depth == 0 or n == 1 and rng.random() < 0.7:
        return rng.choice(leaves(n))
    opts = []
    divs = [w for w in range(2, min(n, 4096)) if n % w == 0]
    if divs:
        opts += ['m'] * 3
    xs = [k for k in NXN if n % k == 0 and n // k >= 1]
    if xs:
        opts += ['x'] * 3
    if n % 4 == 0:
        opts += ['s'] * 2
    if rader and n > 2 and is_prime(n):
        opts += ['p'] * 4
    lv = leaves(n)
    if len(lv) > 1:
        opts += ['l']
    if not opts or rng.random() < 0.03 and n <= 128:
        return rng.choice(lv)
    o = rng.choice(opts)
    d = depth - 1
    if o == 'm':
        w = rng.choice(divs)
        return 'm(%s,%s)' % (rand_tree(w, d, rng, rader), rand_tree(n // w, d, rng, rader))
    if o == 'x':
        k = rng.choice(xs)
        return 'x%d(%s)' % (k, rand_tree(n // k, d, rng, rader))
    if o == 's':
        return 's(%s,%s)' % (rand_tree(n // 4, d, rng, rader), rand_tree(n // 2, d, rng, rader))
    if o == 'p':
        return 'p(%s)' % rand_tree(n - 1, d, rng, rader)
    return rng.choice(lv)


def kinds(n):
    """the outermost algorithms a tree of length n can have, besides leaves"""
    r = ['x%d' % k for k in NXN if n % k == 0]
    if any(n % w == 0 for w in range(2, int(n ** 0.5) + 1)):
        r.append('m')
    if n % 4 == 0:
        r.append('s')
    if n > 2 and is_prime(n):
        r.append('p')
    return r


def kind_tree(n, kind, depth, rng):
    d = depth - 1
    if kind == 'm':
        w = rng.choice([w for w in range(2, min(n, 4096)) if n % w == 0])
        return 'm(%s,%s)' % (rand_tree(w, d, rng), rand_tree(n // w, d, rng))
    if kind == 's':
        return 's(%s,%s)' % (rand_tree(n // 4, d, rng), rand_tree(n // 2, d, rng))
    if kind == 'p':
        return 'p(%s)' % rand_tree(n - 1, d, rng)
    k = int(kind[1:])
    return 'x%d(%s)' % (k, rand_tree(n // k, d, rng))


def leaves(n):
    r = []
    if n & (n - 1) == 0:
        r += ['r%d' % n]
    if n in BUTTERFLIES:
        r += ['b%d' % n] * 2
    if n <= 512 or not r:
        r += ['n%d' % n]
    return r
