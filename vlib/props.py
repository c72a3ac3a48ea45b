"""One function per property: what is modelled, generated, executed and validated."""
import collections, re
from .gens import *
from .trees import *
from .core import CORES

CHECKS = {}


def check(p):
    def d(f):
        CHECKS[p] = f
        return f
    return d


def tree_sets(run, n1, s2, d2n):
    """every depth-1 composition up to length n1, and a sample (or all) of the depth-2 ones up to length d2n"""
    t1 = by_len(run.gen('GenTrees', dict(N=n1, D=1)))
    t2 = by_len(run.gen('GenTrees', dict(N=d2n, D=2)))
    tot2 = sum(map(len, t2.values()))
    picked = 0
    for n in t2:
        have = set(t1.get(n, []))
        rest = [t for t in t2[n] if t not in have]
        if s2 is not None:
            rest = sample(rest, s2, run.rng)
        picked += len(rest)
        t1[n] = t1.get(n, []) + rest
    run.extra['compositions'] = dict(depth1_all_lengths_upto=n1, depth2_enumerated=tot2, depth2_executed=picked)
    return t1


def usable(t, n):
    return field(order(t), n) is not None and maxnaive(t) <= 700


def big_sets(run, sizes, per, depth, perkind=1):
    """large lengths: every leaf, every possible outermost algorithm (perkind times), and random compositions"""
    d = {}
    rng = run.rng
    for n in sizes:
        s = set(leaves(n)) if n <= 600 or n <= 2100 and rng.random() < 0.4 else {l for l in leaves(n) if l[0] != 'n'}
        s = {t for t in s if usable(t, n)}
        for k in kinds(n):
            got = 0
            for _ in range(12 * perkind):
                t = kind_tree(n, k, rng.randrange(1, depth + 1), rng)
                if usable(t, n):
                    s.add(t)
                    got += 1
                    if got == perkind:
                        break
        for _ in range(per):
            t = rand_tree(n, rng.randrange(1, depth + 1), rng)
            if usable(t, n):
                s.add(t)
        d[n] = sorted(s)
    return {n: v for n, v in d.items() if v}


def maxnaive(t):
    def go(x):
        return max([x[1] if x[0] == 'n' else 0] + [go(k) for k in x[2]])
    return go(parse(t))


def rader_sets(run, k):
    """Rader's algorithm at large primes"""
    d = {}
    rng = run.rng
    # any primes, and primes whose least primitive root is large
    some = [rng.choice([p for p in range(lo, lo + 400) if is_prime(p)]) for lo in [rng.randrange(400, 30000) for _ in range(14 if k else 120)]]
    some += [5881, 36721, 55441, 71761, 110881] if k is None else [rng.choice([5881, 36721, 55441, 71761]), 110881]
    for n in some + (RADER if k is None else rng.sample(RADER[:6], k - 3) + [12289, 65537, rng.choice(RADER[-3:])]):
        ts = set()
        for _ in range(60):
            t = kind_tree(n, 'p', run.rng.randrange(2, 5), run.rng)
            if maxnaive(t) <= 700 and n * maxnaive(t) <= 10_000_000:
                ts.add(t)
            if len(ts) >= 2:
                break
        if ts:
            d[n] = sorted(ts)
    return d


def value_check(run, modes):
    q = not run.thorough

    def calls(n, i, t, rng, ty):
        r = []
        if ty != 'fp':
            for _ in range(2):
                m = rng.choice(modes)
                v = ','.join(str(rng.randrange(1, NVEC + 1)) for _ in range(rng.choice([1, 1, 2])))
                sc = rng.choice([0, 0, 0, 30, -30, 95, -95] + ([300, -300] if ty == 'f64' else []))
                r.append('call ty=%s i=%s mode=%s v=%s fs=%d fo=%d sc=%d%s' % (ty, i, m, v, rng.choice(FILL), rng.choice(FILL), sc, scr(rng)))
            if n <= 64:
                # several structured inputs: nothing may depend on the values
                for v in rng.sample(range(6, NVEC + 1), 5):
                    r.append('call ty=%s i=%s mode=%s v=%d fs=2 fo=2' % (ty, i, rng.choice(modes), v))
            return r
        for m in modes:
            if n <= 300:
                r.append('call ty=fp i=%s mode=%s v=basis fs=%d fo=%d%s' % (i, m, rng.choice(FILL), rng.choice(FILL), scr(rng)))
            v = ','.join(str(rng.randrange(1, NVEC + 1)) for _ in range(rng.choice([1, 1, 2, 3])))
            r.append('call ty=fp i=%s mode=%s v=%s fs=%d fo=%d%s' % (i, m, v, rng.choice(FILL), rng.choice(FILL), scr(rng)))
            if n <= 64:
                for v in rng.sample(range(6, NVEC + 1), 2):
                    r.append('call ty=fp i=%s mode=%s v=%d fs=2 fo=2' % (i, m, v))
        return r
    small = tree_sets(run, 64, 50 if q else None, 32 if q else 36)
    blocks = fp_blocks(small, calls, run.rng)
    blocks += fp_blocks(big_sets(run, BIG, 3 if q else 60, 4, 1 if q else 6), calls, run.rng, basmax=300)
    blocks += fp_blocks(big_sets(run, HUGE, 2 if q else 40, 5, 1 if q else 4), calls, run.rng, basmax=300)
    blocks += fp_blocks(big_sets(run, VAST, 0 if q else 10, 6, 1 if q else 2), calls, run.rng, basmax=300)
    # every other length, a tree per outermost algorithm; some random lengths beyond
    rest = [n for n in range(65, 401 if q else 1500) if n not in BIG] + run.rng.sample(range(401, 3000), 60 if q else 1000)

    def few(n, i, t, rng, ty):
        return ['call ty=fp i=%s mode=%s v=%d fs=%d fo=%d%s' % (i, m, rng.randrange(1, NVEC + 1), rng.choice(FILL), rng.choice(FILL), scr(rng)) for m in modes]
    blocks += fp_blocks(big_sets(run, rest, 0, 3), few, run.rng, basmax=0, dense=0)
    # mixed radix at square, skewed and block-sized shapes
    rng = run.rng
    pairs = [(w, w) for w in list(range(2, 35)) + [48, 64, 96, 100, 128, 256]] + \
            [(a, b) for a in (1, 2, 3, 4, 5, 7, 8) for b in rng.sample(range(30, 700), 3 if q else 30) for a, b in ((a, b), (b, a))] + \
            [(a, b) for a in (15, 16, 17, 31, 32, 33, 63, 64, 65) for b in rng.sample((15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129), 3 if q else 12)]
    shaped = {}
    for w, h in pairs:
        for _ in range(8):
            t = 'm(%s,%s)' % (rand_tree(w, rng.randrange(3), rng), rand_tree(h, rng.randrange(3), rng))
            if usable(t, w * h):
                shaped.setdefault(w * h, []).append(t)
                break
    blocks += fp_blocks(shaped, few, rng, basmax=0, dense=0)
    fl = {n: sample(small[n], 10 if q else 60, run.rng) for n in small if n <= 64}
    blocks += fl_blocks(fl, calls, run.rng)
    fb = big_sets(run, run.rng.sample(BIG, 8) + run.rng.sample(HUGE, 5) + run.rng.sample(VAST, 1) if q else BIG + HUGE + VAST, 0, 4)
    run.execute(blocks)
    # the optimised build (no overflow checks, no debug assertions)
    blocks = fl_big_blocks({n: sample(v, 5 if q else 12, run.rng) for n, v in fb.items()}, calls, run.rng)
    blocks += fl_big_blocks(rader_sets(run, 6 if q else None), calls, run.rng)
    blocks += fp_blocks(big_sets(run, run.rng.sample(BIG, 10) + run.rng.sample(HUGE, 4) + run.rng.sample(VAST, 2) if q else BIG + HUGE + VAST, 0, 4), calls, run.rng)
    run.execute(blocks, profile='release')


@check('C01')
def c01(run):
    oracle_model(run, 8, 40)
    machine(run, 'depth1', 14 if run.thorough else 8)
    run.execute(op_blocks(run, 2000 if run.thorough else 80), label='op')
    value_check(run, ['p', 'ip'])


@check('C02')
def c02(run):
    machine(run, 'depth2', 10 if run.thorough else 7)
    run.execute(op_blocks(run, 2000 if run.thorough else 80), label='op')
    value_check(run, ['oop'])


# ------------------------------------------------------------------ models checked without the code
def machine(run, set_, n, bug=None, cfg=None, **kw):
    """the algorithms' programs, executed symbolically on unspecified scratch/output/guard cells"""
    run.model('Machine', cfg=cfg, env=dict(SET=set_, N=n, BUG=bug or 'none'), workers=CORES, timeout=3000, expect_fail='is violated' if bug else None, **kw)


def api_model(run):
    run.model('MCDhtApi', env=dict(CELLS=14, DEPTH=3 if run.thorough else 2), workers=CORES, timeout=3000)


def oracle_model(run, q, th):
    run.model('MCHartley', env=dict(N=th if run.thorough else q), workers=CORES, timeout=3000)


# ------------------------------------------------------------------ the interface as a state machine
def shared_triples(rng):
    """(shared inner C, its length, outer A, outer B): both outers use the same instance of C"""
    trip = []
    for c, l in (('b1', 1), ('b2', 2), ('n3', 3), ('b4', 4), ('r4', 4), ('b5', 5), ('n6', 6), ('b6', 6), ('r8', 8), ('b8', 8), ('b9', 9), ('n10', 10), ('b16', 16), ('n12', 12), ('r16', 16), ('r32', 32), ('r64', 64)):
        outs = ['x2(@C)', 'x3(@C)', 'x4(@C)', 'x5(@C)', 'x6(@C)', 'm(@C,n2)', 'm(b3,@C)', 'm(@C,@C)', 's(@C,n%d)' % (2 * l), 'x2(x2(@C))', 'm(x3(@C),b2)']
        if l % 2 == 0:
            outs.append('s(n%d,@C)' % (l // 2))
        if is_prime(l + 1) and l > 1:
            outs.append('p(@C)')
        if is_prime(2 * l + 1):
            outs.append('p(x2(@C))')
        for a in outs:
            trip.append((c, l, a, rng.choice(outs)))
    return trip


def op_blocks(run, per, nmax=64, types=('fp', 'f64', 'f32')):
    """random behaviours of MCDhtApi, replayed on three transforms that share an inner one, over one memory"""
    rng = run.rng
    seqs = run.gen('MCDhtApi', dict(CELLS=60, DEPTH=10), cfg='GenApi.cfg', simulate=per, depth=14)
    trip = [(c, l, a, b) for c, l, a, b in shared_triples(rng) if length(parse(a.replace('@C', c))) <= nmax and length(parse(b.replace('@C', c))) <= nmax]
    blocks = []
    for k, seq in enumerate(seqs):
        c, l, a, b = rng.choice(trip)
        full = [a.replace('@C', c), b.replace('@C', c), c]
        ty = types[0] if k % 2 == 0 else rng.choice(types)
        n = length(parse(full[0]))
        hd = ctx(full, n, 0, rng) if ty == 'fp' else 'ctx kind=fl n=%d' % n
        if hd is None:
            continue
        size = 11 * max(n, length(parse(full[1]))) + 40
        blk = [hd, 'inst ty=%s id=C t=%s' % (ty, c), 'inst ty=%s id=A t=%s' % (ty, a), 'inst ty=%s id=B t=%s' % (ty, b), 'arena ty=%s size=%d seed=%d' % (ty, size, rng.randrange(1 << 30))]
        for o in seq:
            blk.append('op ty=%s i=%s mode=%s k=%d e=%d f=%d x=%d base=%d ord=%d g1=%d g2=%d' % (ty, 'ABC'[o['i'] - 1], o['mode'], o['k'], o['e'], o['f'], o['x'], o['base'], o['ord'], o['g1'], o['g2']))
        blocks.append(blk)
    run.extra['api_behaviours_replayed'] = run.extra.get('api_behaviours_replayed', 0) + len(blocks)
    return blocks


# ------------------------------------------------------------------ C03
def fl_large(run, rng=None):
    """floating-point compositions beyond the dense lengths, some of them of random length"""
    rng, q = rng or run.rng, not run.thorough
    sizes = rng.sample(BIG, 5 if q else 20) + rng.sample(HUGE[:14], 3 if q else 14) + [2 * rng.randrange(35, 150) + 1, 2 * rng.randrange(150, 350) + 1, 2 * rng.randrange(350, 800) + 1]
    return {n: sorted(set(sample(v, 5 if q else 12, rng)) | ({'n%d' % n} if n <= 1700 else set())) for n, v in big_sets(run, sizes, 1 if q else 4, 4).items()}


@check('C03')
def c03(run):
    api_model(run)
    machine(run, 'depth1', 12 if run.thorough else 6)
    run.execute(op_blocks(run, 2000 if run.thorough else 100), label='op')
    def calls(n, i, t, rng, ty):
        r = []
        base = 'call ty=%s i=%s' % (ty, i)
        modes = ['ip', 'oop'] if ty == 'fp' else [rng.choice(['ip', 'oop'])]
        for m in modes:
            for v in (1, 2, 4) if ty == 'fp' else (1, 2):
                r.append('%s mode=%s v=%d' % (base, m, v))
            for k in (2, 3, rng.choice([4, 5, 7, 8])):
                ids = [rng.choice([1, 2, 4, 6, 7, rng.randrange(1, NVEC + 1)] if ty == 'fp' else [1, 2, 6, 7]) for _ in range(k)]
                if rng.random() < 0.6 or ty != 'fp':
                    ids[rng.randrange(k)] = 0
                mm = 'p' if m == 'ip' and rng.random() < 0.4 else m
                r.append('%s mode=%s v=%s fs=%d fo=%d%s' % (base, mm, ','.join(map(str, ids)), rng.choice(FILL), rng.choice(FILL), scr(rng)))
        # long batches: any count; very long ones for short transforms
        pool = rng.choice(['0.1.2.4', '0.1.6.9.11', '1.2.4']) if ty == 'fp' else rng.choice(['0.1.2', '1.2.7'])
        for k in {rng.randrange(9, 70), rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])}:
            if k * n <= 20000:
                r.append('%s mode=%s v=rnd:%d:%d:%s' % (base, rng.choice(['p', 'ip', 'oop']), k, rng.randrange(1000), pool))
        if n <= 16 and rng.random() < 0.3:
            k = rng.choice([1000, 4097, 65536 // n + 1, 66000])
            for m in modes:
                r.append('%s mode=%s v=rnd:%d:%d:%s' % (base, m, k, rng.randrange(1000), pool))
        return r
    q = not run.thorough
    small = tree_sets(run, 40 if q else 64, 25 if q else 400, 20 if q else 32)
    blocks = fp_blocks(small, calls, run.rng, basmax=0)
    blocks += fp_blocks(big_sets(run, BIG[::3] if q else BIG, 3 if q else 8, 4), calls, run.rng, basmax=0)
    blocks += fp_blocks(big_sets(run, HUGE[::4] if q else HUGE, 2 if q else 4, 5), calls, run.rng, basmax=0)
    fl = {n: sample(small[n], 6 if q else 30, run.rng) for n in small if n <= 40}
    blocks += fl_blocks(fl, calls, run.rng)
    blocks += fl_big_blocks(fl_large(run), calls, run.rng)
    run.execute(blocks)


# ------------------------------------------------------------------ C04
@check('C04')
def c04(run):
    machine(run, 'depth1', 12 if run.thorough else 6)
    machine(run, 'users2', 8 if run.thorough else 5)
    machine(run, 'few', 5, bug='rader-first')
    run.execute(op_blocks(run, 2000 if run.thorough else 100), label='op')
    def calls(n, i, t, rng, ty):
        r = []
        base = 'call ty=%s i=%s' % (ty, i)
        fills = (1, 2, 4, 9, 6, 8, 12, 13, 14, 15) if ty == 'fp' else (1, 3, 5, 4, 2, 6, 8, 12, 13, 14, 15)
        for m in ('ip', 'oop'):
            vs = [1, 4] if ty == 'fp' else [1]
            for v in vs:
                r.append('%s mode=%s v=%d' % (base, m, v))
            if m == 'ip':
                r.append('%s mode=p v=1' % base)
            for f in fills:
                v = rng.choice(vs)
                r.append('%s mode=%s v=%d fs=%d fo=%d s=+0%s' % (base, m, v, f, rng.choice(fills), al(rng)))
            for s in ('+1', '+%d' % max(1, n), 'x2', 'x3', '+%d' % (2 * n + 5), '+%d' % (7 * n), str(16 * n + 100)):
                v = rng.choice(vs)
                r.append('%s mode=%s v=%s fs=%d fo=%d s=%s%s' % (base, m, ','.join([str(v)] * rng.choice([1, 1, 2, 3])), rng.choice(fills), rng.choice(fills), s, al(rng)))
        return r
    q = not run.thorough
    small = tree_sets(run, 40 if q else 64, 20 if q else 300, 20 if q else 32)
    blocks = fp_blocks(small, calls, run.rng, basmax=0)
    blocks += fp_blocks(big_sets(run, BIG[::2] if q else BIG, 4 if q else 8, 4), calls, run.rng, basmax=0)
    blocks += fp_blocks(big_sets(run, HUGE[::4] if q else HUGE, 2 if q else 4, 5), calls, run.rng, basmax=0)
    fl = {n: sample(small[n], 5 if q else 30, run.rng) for n in small if n <= 40}
    for n in (48, 64, 96, 128, 256, 512):
        fl[n] = sample(leaves(n) + [rand_tree(n, 2, run.rng) for _ in range(3 if q else 20)], 5 if q else 30, run.rng)
    blocks += fl_blocks(fl, calls, run.rng)
    blocks += fl_big_blocks(fl_large(run), calls, run.rng)
    run.execute(blocks)


# ------------------------------------------------------------------ C05
def demand(d, l):
    return max(0, d[0] * l + d[1])


@check('C05')
def c05(run):
    run.apalache('Scratch', 'Suffices')
    run.apalache('Scratch', 'OldSuffices', holds=False)
    machine(run, 'users', 6 if run.thorough else 4)
    machine(run, 'users2', 10 if run.thorough else 6)
    for bug in ('x-inner', 's-quarter'):
        machine(run, 'few', 5, bug=bug)
    dem = run.gen('GenCalls', dict(WHAT='scratch', LEN=1, SEG=1))
    rng = run.rng
    q = not run.thorough

    def u(l):
        d = rng.choice(dem)
        return 'u%d:%d:%d' % (l, demand(d['ip'], l), demand(d['oop'], l))

    def us(l, per=2):
        """every in-place demand, each with several out-of-place ones (quick) or with all of them"""
        if not q:
            return sorted({'u%d:%d:%d' % (l, demand(d['ip'], l), demand(d['oop'], l)) for d in dem})
        vals = sorted({demand(d['ip'], l) for d in dem})
        r = set()
        for _ in range(per):
            for a, b in zip(vals, rng.sample(vals, len(vals))):
                r.add('u%d:%d:%d' % (l, a, b))
        return sorted(r)
    by = collections.defaultdict(set)
    # one inner transform: every demand, for every outer algorithm
    for l in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16):
        for k in NXN:
            for x in us(l):
                by[k * l].add('x%d(%s)' % (k, x))
        if is_prime(l + 1):
            for x in us(l, 4):
                by[l + 1].add('p(%s)' % x)
    for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (4, 3), (3, 5), (4, 4), (2, 8), (8, 2), (1, 7), (7, 1)):
        ua, ub = us(a, 4), us(b, 4)
        # demands around the length of the whole as well
        whole = [a * b + c for c in (-1, 0, 1)] + [2 * a * b, 3 * a * b + 1]
        ua += ['u%d:%d:%d' % (a, x, rng.choice(whole)) for x in whole]
        ub += ['u%d:%d:%d' % (b, x, rng.choice(whole)) for x in whole]
        for x in ua:
            for y in sample(ub, 3 if q else 60, rng):
                by[a * b].add('m(%s,%s)' % (x, y))
        for y in ub:
            by[a * b].add('m(%s,%s)' % (rng.choice(ua), y))
    for l in (1, 2, 3, 4, 5, 6, 8):
        ua, ub = us(l, 4), us(2 * l, 4)
        for x in ua:
            for y in sample(ub, 3 if q else 60, rng):
                by[4 * l].add('s(%s,%s)' % (x, y))
        for y in ub:
            by[4 * l].add('s(%s,%s)' % (rng.choice(ua), y))

    # deep nestings over user transforms
    def wild(n, d):
        t = rand_tree(n, d, rng)
        # replace leaves by user transforms
        import re
        return re.sub(r'[nbr](\d+)', lambda m: u(int(m.group(1))) if int(m.group(1)) <= 64 and rng.random() < 0.75 else m.group(0), t)
    for n in list(range(4, 49)) + [60, 64, 72, 96, 120, 128, 144, 192, 256]:
        for _ in range(12 if q else 120):
            t = wild(n, rng.randrange(1, 5))
            if 'u' in t:
                by[n].add(t)
    # the library's own transforms, with exactly the advertised scratch
    own = tree_sets(run, 32 if q else 64, 20 if q else 200, 20 if q else 32)
    for n in own:
        by[n] |= set(own[n])
    for n, v in big_sets(run, BIG[::4] if q else BIG, 3 if q else 8, 4).items():
        by[n] |= set(v)

    def calls(n, i, t, rng, ty):
        r = []
        base = 'call ty=%s i=%s' % (ty, i)
        fills = (1, 2, 4, 9, 6, 8, 12, 13, 14, 15) if ty == 'fp' else (1, 3, 5, 4, 2, 6, 8, 12, 13, 14, 15)
        for m in ('ip', 'oop'):
            k = rng.choice([1, 1, 2, 3])
            v = ','.join(str(rng.randrange(1, NVEC + 1)) for _ in range(k))
            r.append('%s mode=%s v=%s fs=%d fo=%d s=+0' % (base, m, v, rng.choice(fills), rng.choice(fills)))
        r.append('%s mode=%s v=2 fs=%d fo=%d s=+%d' % (base, rng.choice(['p', 'ip', 'oop']), rng.choice(fills), rng.choice(fills), rng.randrange(1, 30)))
        return r
    by = {n: sorted(v) for n, v in by.items()}
    run.extra['compositions_with_user_inner'] = sum(1 for v in by.values() for t in v if 'u' in t)
    blocks = fp_blocks(by, calls, rng, basmax=0)
    fl = {n: sample([t for t in by[n] if 'u' in t], 6 if q else 60, rng) for n in by if n <= 48}
    blocks += fl_blocks({n: v for n, v in fl.items() if v}, calls, rng)
    run.execute(blocks)


# ------------------------------------------------------------------ C06
def shape_call(sh, n, rng, extra=''):
    b = sh['b'][0] * n + sh['b'][1]
    o = b + sh['o'][0] * n + sh['o'][1]
    if b < 0 or o < 0:
        if sh['o'][0] <= -9:
            o = 0
        else:
            return None
    s = 'mode=%s' % sh['m']
    if b >= n and b % n == 0:
        s += ' v=' + ','.join(str(rng.choice([0, 1, 2, 4, 6, 7, 9])) for _ in range(b // n))
    else:
        s += ' b=%d' % b
    if sh['m'] == 'oop':
        s += ' o=%d' % o
    if sh['m'] != 'p':
        s += ' s=' + sh['s']
    return s


def one_of_each(run, per, nmax, depth2):
    """a set of trees that contains every algorithm at several lengths"""
    t = by_len(run.gen('GenTrees', dict(N=nmax, D=1)))
    r = {}
    for n in t:
        leaf = [x for x in t[n] if '(' not in x]
        rest = [x for x in t[n] if '(' in x]
        kinds = collections.defaultdict(list)
        for x in rest:
            kinds[x[:2] if x[0] == 'x' else x[0]].append(x)
        pick = list(leaf)
        for k in kinds:
            pick += sample(kinds[k], per, run.rng)
        for _ in range(depth2):
            pick.append(rand_tree(n, 3, run.rng))
        r[n] = sorted(set(pick))
    return r


@check('C06')
def c06(run):
    api_model(run)
    for profile in ('chk', 'release'):
        run.execute(op_blocks(run, 2000 if run.thorough else 150), profile=profile, label='op')
    shapes = run.gen('GenCalls', dict(WHAT='shapes', LEN=1, SEG=1))
    q = not run.thorough
    rng = run.rng

    def calls(n, i, t, rng, ty):
        r = []
        ss = shapes if n in (1, 2, 3, 4, 5, 6, 8, 9, 12, 16) and not q else None
        if ss is None:
            # every buffer/output shape with sufficient and with insufficient scratch, every scratch for valid buffers
            ss = [s for s in shapes if s['s'] in ('+0', '-1') or (s['b'][1] == 0 and s['o'] == [0, 0])]
            if q:
                keep = [s for s in ss if s['m'] != 'oop']
                oop = [s for s in ss if s['m'] == 'oop']
                # valid buffers with every amount of scratch, always; a sample of the rest
                keep += [s for s in oop if s['b'] in ([1, 0], [2, 0]) and s['o'] == [0, 0]]
                ss = keep + rng.sample(oop, min(len(oop), 60))
        for s in ss:
            c = shape_call(s, n, rng)
            if c:
                r.append('call ty=%s i=%s %s fs=2 fo=2' % (ty, i, c))
        # arbitrary sizes
        for _ in range(6 if q else 60):
            b = rng.choice([rng.randrange(0, 3 * n + 2), rng.randrange(0, 12 * n + 2), n * rng.randrange(1, 40), n * rng.randrange(2, 40) + rng.choice([-1, 1])])
            o = rng.choice([b, b, rng.randrange(0, b + n + 1), n * rng.randrange(0, 5), 0])
            sc = rng.choice(['+0', '+0', '+%d' % rng.randrange(1, 3 * n + 1), '-%d' % rng.randrange(1, n + 2), str(rng.randrange(0, 2 * n + 1)), str(n), 'x3'])
            m = rng.choice(['p', 'ip', 'oop', 'oop'])
            r.append('call ty=%s i=%s mode=%s b=%d%s%s fs=2 fo=2' % (ty, i, m, b, ' o=%d' % o if m == 'oop' else '', ' s=' + sc if m != 'p' else ''))
        # sizes that differ by multiples of 2^8 and 2^16: truncated to fewer bits they are equal, or multiples of the length
        for w in ((256, 65536) if n <= 64 else (256,)):
            k = rng.randrange(1, 4)
            ok = n * rng.randrange(1, 4)
            bs = [ok, ok, w * n, w * n + ok, next((w * j for j in range(1, 9) if (w * j) % n), w), w // n * n, w * k + ok]
            for b in rng.sample(bs, 3):
                for m, o in [('ip', 0), ('oop', b + w * rng.randrange(1, 3)), ('oop', max(0, b - w)), ('oop', b)] + ([('p', 0)] if rng.random() < 0.3 else []):
                    if b * n > 4000000 and b % n == 0 and (m != 'oop' or o == b):
                        continue
                    r.append('call ty=%s i=%s mode=%s b=%d%s fs=2 fo=2' % (ty, i, m, b, ' o=%d' % o if m == 'oop' else ''))
        return r
    trees = one_of_each(run, 1 if q else 3, 20, 0 if q else 3)
    for n in (25, 27, 32, 36, 48, 64, 128, 97, 256):
        trees[n] = sorted({rand_tree(n, 2, rng) for _ in range(3 if q else 10)} | set(leaves(n)))
    # user transforms inside
    for n in (4, 6, 8, 10, 12):
        import re
        trees[n] += sorted(t for t in {re.sub(r'[nbr](\d+)', r'u\1:3:5', rand_tree(n, 1, rng)) for _ in range(8)} if t[0] != 'u')
    # ... that demand more scratch than the outer transform can lend them, out of place and in place
    for n in (1, 2, 3, 4, 5, 6, 8, 9, 12):
        for t in ['x%d(u%d:%d:%d)' % (k, n, d, e) for k in (2, 3, 4, 5, 6) for d, e in [(k * n + 1, 0), (9 * n + 2, 4 * n)]] + \
                 ['s(u%d:%d:2,u%d:%d:1)' % (n, d, 2 * n, e) for d, e in [(9 * n, 0), (0, 9 * n), (4 * n + 2, 4 * n + 1)]] + \
                 ['m(u%d:%d:3,u3:%d:1)' % (n, d, e) for d, e in [(9 * n, 0), (1, 9 * n), (3 * n + 2, 3 * n + 1)]] + \
                 (['p(u%d:%d:%d)' % (n, d, 2 * n) for d in (n + 1, n + 2, 5 * n)] if is_prime(n + 1) else []):
            trees.setdefault(length(parse(t)), []).append(t)
    fl = {n: sample(trees[n], 1 if q else 4, rng) for n in trees if n <= 16 or n % 2 == 0}
    for profile in ('chk', 'release'):
        run.execute(fp_blocks(trees, calls, rng, basmax=0) + fl_blocks(fl, calls, rng), profile=profile)
    run.extra['shapes'] = len(shapes)


# ------------------------------------------------------------------ C07
@check('C07')
def c07(run):
    q = not run.thorough
    rng = run.rng
    lines = []
    k = 0

    def inst(t, call=None):
        nonlocal k
        k += 1
        lines.append('inst ty=f64 id=c%d t=%s' % (k, t))
        if call is not None:
            lines.append('call ty=f64 i=c%d mode=%s b=%d o=%d' % (k, rng.choice(['p', 'ip', 'oop']), call, call))
            if rng.random() < 0.5:
                lines[-1] = lines[-1].replace('mode=oop', 'mode=ip')
    for n in list(range(0, 130)) + [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1536, 2048, 3072, 4095, 4096, 6144, 8192, 16384, 24576, 32768, 65535, 65536]:
        inst('r%d' % n, n if n and n & (n - 1) == 0 else None)
        if n <= 1100:
            inst('n%d' % n, n)
    for b in BUTTERFLIES:
        inst('b%d' % b, b)
    top = 1200 if q else 6000
    for l in list(range(0, top)) + [x - 1 for x in (6601, 7919, 8911, 8191, 10585, 15841, 29341, 32767, 46657, 65535, 65537, 62745, 63973, 75361, 104729, 1 << 17, 131071, *RADER, *SPSP, 1000003, 2097143)]:
        inst('p(z%d)' % l, l + 1 if is_prime(l + 1) and (l < 200 or l + 1 in RADER[-4:] or rng.random() < 0.1) else None)
    # primes with a large least primitive root, or beyond what a float or 24 bits hold
    for p in [191, 409, 2161, 5881, 36721, 55441, 71761, 110881, 16777259] + ([760321, 5109721] if not q else []):
        inst('p(z%d)' % (p - 1), p if p < 200000 else None)
    # lengths that only a careless (truncated, rounded, probabilistic) test lets through
    big = lambda t, fac='': lines.append('instbig ty=f64 t=%s%s' % (t, fac and ' fac=%d,%d' % fac))
    # strong pseudoprimes to the first few bases; squares and products of neighbouring primes
    comp = [(2251, 11251), (7333, 21997), (11717, 82013), (24061, 48121), (151, 21291601), (48781, 97561), (611557, 1834669), (6763, 318246769), (1303, 2666730361), (10670053, 32010157)]
    comp += [(65537, 65537), (65537, 65539), (46337, 46349), (4099, 4099), (1000003, 1000003), (2097143, 2097143), (94906249, 94906249)]
    # composite, but prime modulo 2^32 or 2^24 or 2^16
    for w in (16, 24, 32):
        got = 0
        while got < 6:
            x = (rng.randrange(1, 50) << w) + rng.choice([3, 5, 7, 11, 13, 17, 101, 257, 65521][:8 if w == 16 else 9])
            f = next((d for d in range(2, 70000) if x % d == 0), x)
            if f < x:
                comp.append((f, x // f))
                got += 1
    for f in comp:
        big('p(z%d)' % (f[0] * f[1] - 1), f)
    for e in (15, 16, 23, 24, 31, 32, 33, 40, 52, 53, 54, 60):
        for x in ((1 << e) + 1, (1 << e) - 1, (1 << e) + 4, 3 << e, 5 << e, (1 << e) + (1 << 14)):
            big('r%d' % x)
    for e in (8, 16, 24, 31, 32, 33, 48, 52, 53):
        for a in (1, 2, 5, 8, 12, 1 << e, (1 << e) + 3):
            for b in (2 * a + (1 << e), 2 * a + (3 << e), abs(2 * a - (1 << e)), 2 * a + 1, a):
                if b != 2 * a:
                    big('s(z%d,z%d)' % (a, b))
    for a in range(0, 14):
        for b in range(0, 30):
            inst('s(z%d,z%d)' % (a, b), 4 * a if b == 2 * a and a else None)
    for a in (16, 20, 25, 32, 33, 64, 100, 127, 256, 1000):
        for b in (2 * a, 2 * a + 1, 2 * a - 1, a, 4 * a, a // 2, 0, 2 * a + 2, 2 * a + 4):
            inst('s(z%d,z%d)' % (a, b), 4 * a if b == 2 * a else None)
    for a in list(range(0, 18)) + [31, 32, 33, 64, 100, 257]:
        for w in NXN:
            inst('x%d(z%d)' % (w, a), w * a)
        for b in list(range(0, 18)) + [31, 32, 33]:
            inst('m(z%d,z%d)' % (a, b), a * b)
    # real inner transforms
    real = one_of_each(run, 2, 24 if q else 40, 3 if q else 20)
    for n in real:
        for t in real[n]:
            inst(t, n)
    for n in BIG:
        for _ in range(2 if q else 10):
            inst(rand_tree(n, 4, rng), n)
    run.extra['constructor_calls'] = k
    # split into blocks
    blocks = []
    cur = None
    for l in lines:
        if cur is None or (len(cur) > 600 and l.startswith('inst')):
            cur = ['ctx kind=fl n=0']
            blocks.append(cur)
        cur.append(l)
    for profile in ('chk', 'release'):
        run.execute(blocks, profile=profile)


# ------------------------------------------------------------------ C08
@check('C08')
def c08(run):
    q = not run.thorough
    api_model(run)
    machine(run, 'depth2', 9 if run.thorough else 6)
    run.execute(op_blocks(run, 4000 if run.thorough else 200), label='op')
    rng = run.rng
    hist = run.gen('GenCalls', dict(WHAT='hist', LEN=2 if q else 3, SEG=1))
    trip = shared_triples(rng)
    blocks = []

    def call(inst, n, kind, rng, v):
        vs = lambda k: ','.join(str(rng.choice(v)) for _ in range(k))
        if n == 1 and kind == 'badbuf':
            return 'call ty=%s i=%s mode=%s b=0' % ('%s', inst, rng.choice(['ip', 'oop', 'p']))
        d = {'ip1': 'mode=ip v=%s' % vs(1), 'ip2': 'mode=ip v=%s' % vs(2), 'oop1': 'mode=oop v=%s' % vs(1), 'oop3': 'mode=oop v=%s' % vs(3), 'p1': 'mode=p v=%s' % vs(1),
             'badbuf': rng.choice(['mode=ip b=%d' % (n + 1), 'mode=oop b=%d' % (2 * n + 1), 'mode=p b=%d' % (n - 1), 'mode=p b=%d' % (3 * n - 1), 'mode=oop b=%d' % (n - 1)]),
             'badscr': rng.choice(['mode=ip v=%s s=-1' % vs(1), 'mode=oop v=%s s=-1' % vs(2), 'mode=ip v=%s s=0' % vs(2)]),
             'badout': rng.choice(['mode=oop v=%s o=%d' % (vs(1), n + 1), 'mode=oop v=%s o=%d' % (vs(2), n)])}
        return 'call ty=%s i=%s %s fs=%d fo=%d' % ('%s', inst, d[kind], rng.choice(FILL), rng.choice(FILL))
    chosen = trip if not q else rng.sample(trip, 90)
    for (c, l, a, b) in chosen:
        full = {'A': a.replace('@C', c), 'B': b.replace('@C', c), 'C': c}
        for ty in ('fp', 'f64'):
            if ty == 'f64' and rng.random() < 0.6:
                continue
            n = length(parse(full['A']))
            nb = length(parse(full['B']))
            if ty == 'fp':
                hd = ctx([full['A'], full['B'], c], n, 0, rng)
                if hd is None:
                    continue
            else:
                hd = 'ctx kind=fl n=%d' % n
            # (the fixed-point encoding of floats holds magnitudes below 2^14)
            base = [rng.randrange(1, 9 if n <= 1000 else 3) for _ in range(n)]
            vec = lambda x: ';'.join('%d:%d' % (j, y) for j, y in enumerate(x))
            v2 = list(base); v2[rng.randrange(n)] += 1
            v3 = list(base); v3[-1] += 3
            v4 = list(reversed(base))
            blk = [hd] + ['vec id=%d pairs=%s' % (i + 1, vec(x)) for i, x in enumerate((base, v2, v3, v4))]
            # reference: every (style, vector) on instances used for nothing else
            r = 0
            for m in ('ip', 'oop'):
                for v in (1, 2, 3, 4):
                    blk += ['inst ty=%s id=R%d t=%s' % (ty, r, full['A']), 'call ty=%s i=R%d mode=%s v=%d' % (ty, r, m, v)]
                    r += 1
            hs = rng.sample(hist, 40 if q else 400)
            for h in hs:
                # fresh instances for each history, sharing the inner transform
                if rng.random() < 0.5:
                    blk += ['inst ty=%s id=C t=%s' % (ty, c), 'inst ty=%s id=A t=%s' % (ty, a), 'inst ty=%s id=B t=%s' % (ty, b)]
                elif 'id=A' not in '\n'.join(blk[-400:]):
                    blk += ['inst ty=%s id=C t=%s' % (ty, c), 'inst ty=%s id=A t=%s' % (ty, a), 'inst ty=%s id=B t=%s' % (ty, b)]
                for op in h + [dict(w='A', k=rng.choice(['ip1', 'oop1', 'p1', 'ip2']))]:
                    if op['w'] == 'A':
                        blk.append(call('A', n, op['k'], rng, (1, 2, 3, 4)) % ty)
                    else:
                        # other lengths: the vectors are truncated or padded with zeros
                        ln = nb if op['w'] == 'B' else l
                        blk.append(call(op['w'], ln, op['k'], rng, (1, 2, 3, 4)) % ty)
            # long lives: many calls on one instance, then the recorded one
            blk += ['inst ty=%s id=C t=%s' % (ty, c), 'inst ty=%s id=A t=%s' % (ty, a), 'inst ty=%s id=B t=%s' % (ty, b)]
            for k in (20, 260, 1030) if n > 16 or rng.random() < 0.7 else (300, 4100, 66000):
                blk.append('call ty=%s i=A mode=%s v=%d rep=%d' % (ty, rng.choice(['p', 'ip', 'oop']), rng.randrange(1, 5), k))
                blk.append('call ty=%s i=A mode=%s v=%d' % (ty, rng.choice(['p', 'ip', 'oop']), rng.randrange(1, 5)))
            blocks.append(blk)
    run.extra['histories'] = len(hist)
    run.execute(blocks)


# ------------------------------------------------------------------ C09
@check('C09')
def c09(run):
    q = not run.thorough
    machine(run, 'threads', 7 if run.thorough else 4, cfg='MachineLive.cfg')
    machine(run, 'threads', 4, bug='shared-scratch')
    rng = run.rng
    s23 = run.gen('GenCalls', dict(WHAT='sched', LEN=2, SEG=3))
    s32 = run.gen('GenCalls', dict(WHAT='sched', LEN=3, SEG=2))
    run.extra['schedules'] = dict(two_threads_three_segments=len(s23), three_threads_two_segments=len(s32))
    blocks = []
    inner = ['b4', 'n5', 'r8', 'b6', 'n6', 'r16', 'b16', 'b9', 'x2(b2)', 'm(b2,n3)', 'p(n4)', 's(b2,b4)', 'n12', 'r64', 'p(b6)']
    if q:
        inner = rng.sample(inner, 9)
    for c in inner:
        l = length(parse(c))
        outs = ['x2(@C)', 'x3(@C)', 'x4(@C)', 'x5(@C)', 'x6(@C)', 'm(@C,n3)', 'm(b4,@C)', 'm(@C,@C)', 's(@C,n%d)' % (2 * l), 'x2(x3(@C))']
        if is_prime(l + 1):
            outs.append('p(@C)')
        outs = rng.sample(outs, 4 if q else len(outs))
        for a in outs:
            b = rng.choice(outs)
            full = {'A': a.replace('@C', c), 'B': b.replace('@C', c), 'C': c}
            n = length(parse(full['A']))
            for ty in ('fp', rng.choice(['f64', 'f32'])):
                if ty == 'fp':
                    hd = ctx(list(full.values()), n, 0, rng)
                    if hd is None:
                        continue
                else:
                    hd = 'ctx kind=fl n=%d' % n
                blk = [hd] + (vecs_fp(n, rng) if ty == 'fp' else vecs_fl(n, rng))
                # alone: reference results on instances of their own
                for w in 'ABC':
                    blk.append('inst ty=%s id=R%s t=%s' % (ty, w, full[w]))
                    for m in ('ip', 'oop'):
                        for v in (1, 2, 3):
                            blk.append('call ty=%s i=R%s mode=%s v=%d' % (ty, w, m, v))
                blk += ['inst ty=%s id=C t=%s' % (ty, c), 'inst ty=%s id=A t=%s' % (ty, a), 'inst ty=%s id=B t=%s' % (ty, b)]

                def th(pool):
                    return '%s:%s:%s' % (rng.choice(pool), rng.choice(['ip', 'oop', 'p']), ','.join(str(rng.randrange(1, 4)) for _ in range(rng.choice([1, 1, 2]))))
                if ty == 'fp':
                    # every schedule, in rotation over thread assignments
                    for s in (s23 if not q else rng.sample(s23, 10)):
                        blk.append('conc ty=fp th=%s;%s segs=3 sch=%s' % (th('A'), th('AAB'), ','.join(map(str, s))))
                    for s in rng.sample(s32, 6 if q else 40):
                        blk.append('conc ty=fp th=%s;%s;%s segs=2 sch=%s' % (th('A'), th('AB'), th('ABC'), ','.join(map(str, s))))
                    # every point at which the first call can be pre-empted by a whole second call
                    for fresh in (0, 1) if q else (0, 0, 1, 1):
                        blk.append('conc ty=fp th=%s;%s cuts=%d fresh=%d' % (th('A'), th('AAB'), 60 if q else 400, fresh))
                    # fine-grained interleavings
                    for k in (2, 3) if q else (2, 2, 3, 3, 4):
                        blk.append('conc ty=fp th=%s fine=%d' % (';'.join(th('AABC') for _ in range(k)), rng.randrange(1 << 20)))
                    # many threads
                    blk.append('conc ty=fp th=%s fine=%d' % (';'.join(th('AAAABC') for _ in range(rng.choice([5, 8, 9, 12]))), rng.randrange(1 << 20)))
                # free running
                blk.append('conc ty=%s th=%s reps=%d' % (ty, ';'.join(th('AAAABC') for _ in range(rng.choice([8, 17, 20]))), 3 if q else 10))
                for _ in range(2):
                    blk.append('conc ty=%s th=%s reps=%d' % (ty, ';'.join(th('AAAABC') for _ in range(rng.choice([2, 4, 6]))), 12 if q else 60))
                # and afterwards, alone again
                blk += ['call ty=%s i=A mode=ip v=1' % ty, 'call ty=%s i=A mode=oop v=2' % ty]
                blocks.append(blk)
    run.execute(blocks, shards=4)
    # short transforms under real parallelism, many times in quick succession, on as many threads as there are cores
    blocks = []
    trees = ['b1', 'b2', 'b3', 'n3', 'b4', 'r4', 'b5', 'b6', 'n7', 'b8', 'b9', 'b16', 'r32', 'n1', 'x2(b2)', 'x3(b2)', 'x4(b2)', 'x5(b1)', 'x6(b1)', 'm(b2,b2)', 'm(b3,b4)', 'p(b2)', 'p(b4)', 'p(b6)', 's(b1,b2)', 's(b2,b4)', 's(b4,r8)', 'x2(x2(b2))', 'p(x2(b3))', 'm(p(b2),b3)', 'r64', 'r128', 'x3(r16)', 'p(r16)', 's(r16,r32)', 'm(b9,b16)', 'p(r256)', 'p(x3(r256))', 'm(p(r256),b2)', 's(r256,r512)']
    for t in trees:
        n = length(parse(t))
        for ty in ('f64', 'f32') if not q else (rng.choice(['f64', 'f64', 'f32']),):
            blk = ['ctx kind=fl n=%d' % n] + vecs_fl(n, rng) + ['inst ty=%s id=R t=%s' % (ty, t)]
            blk += ['call ty=%s i=R mode=%s v=%d' % (ty, m, v) for m in ('ip', 'oop') for v in (1, 2, 4)]
            blk.append('inst ty=%s id=A t=%s' % (ty, t))
            reps = (6000 if q else 200000) // (1 + n // 16)
            for ms in (['ip', 'oop'], ['p', 'ip'], ['oop'], ['ip']):
                for _ in range(4 if q else 40):
                    # the first use of an instance, by all threads at once
                    blk.append('conc ty=%s th=%s ham=1 fresh=1' % (ty, ';'.join('A:%s:%d' % (rng.choice(ms), rng.choice([1, 2, 4])) for _ in range(CORES))))
                blk.append('conc ty=%s th=%s ham=%d' % (ty, ';'.join('A:%s:%d' % (rng.choice(ms), rng.choice([1, 2, 4])) for _ in range(CORES)), reps))
            blk += ['call ty=%s i=A mode=%s v=%d' % (ty, m, v) for m in ('ip', 'oop') for v in (1, 2, 4)]
            blocks.append(blk)
    run.execute(blocks, shards=1, profile='release', label='ham')


# ------------------------------------------------------------------ C10
@check('C10')
def c10(run):
    q = not run.thorough

    def calls(n, i, t, rng, ty):
        r = []
        for m in ('ip', 'oop'):
            for v in rng.sample(range(1, NVEC + 1), 2):
                sc = rng.choice([0, 0, 0, 10, -10, 40, -40, 90, -90] + ([400, -400, 900, -900] if ty == 'f64' else []))
                r.append('call ty=%s i=%s mode=%s v=%d sc=%d' % (ty, i, m, v, sc))
        return r
    small = tree_sets(run, 64, 6 if q else 100, 24 if q else 32)
    if q:
        small = {n: sample(small[n], 16, run.rng) for n in small}
    blocks = fl_blocks(small, calls, run.rng, per=12)
    big = big_sets(run, BIG[::2] if q else BIG, 1 if q else 8, 4)
    blocks += fl_blocks(big, calls, run.rng, per=8)
    huge = big_sets(run, run.rng.sample(HUGE[:-2], 7) + [4096, 8192, 20736, 32768, 65536] if q else HUGE + VAST, 0 if q else 6, 4)
    blocks += fl_big_blocks(huge, calls, run.rng)
    blocks += fl_big_blocks(rader_sets(run, 6 if q else None), calls, run.rng)
    run.execute(blocks)


# ------------------------------------------------------------------ C11
@check('C11')
def c11(run):
    q = not run.thorough
    oracle_model(run, 12, 40)
    api_model(run)
    rng = run.rng
    small = tree_sets(run, 48 if q else 64, 20 if q else 200, 20 if q else 32)

    def chains(ts, n, ty):
        r = []
        for k, t in enumerate(ts):
            r.append('inst ty=%s id=%s%d t=%s' % (ty, ty, k, t))
        for k in range(len(ts)):
            for o in {k, rng.randrange(len(ts))}:
                m1, m2 = rng.choice(['p', 'ip', 'oop']), rng.choice(['p', 'ip', 'oop'])
                v = ','.join(str(rng.randrange(1, NVEC + 1)) for _ in range(rng.choice([1, 1, 2])))
                r.append('chain ty=%s i=%s%d i2=%s%d mode=%s mode2=%s v=%s fs=%d fo=%d' % (ty, ty, k, ty, o, m1, m2, v, rng.choice(FILL), rng.choice(FILL)))
            if n <= 64:
                # every structured input once: nothing may depend on the values
                for v in rng.sample(range(6, NVEC + 1), 3 if ty == 'fp' else 6):
                    m = rng.choice(['p', 'ip', 'oop'])
                    r.append('chain ty=%s i=%s%d i2=%s%d mode=%s mode2=%s v=%d fs=2 fo=2' % (ty, ty, k, ty, k, m, m, v))
        return r
    blocks = []
    sets = dict(small)
    for d in (big_sets(run, BIG if not q else BIG[::2], 4 if q else 10, 4), big_sets(run, HUGE[::3] if q else HUGE, 2 if q else 4, 5), big_sets(run, VAST, 0 if q else 4, 5)):
        sets.update(d)
    for n in sorted(sets):
        for ts in group(sets[n], n, 200):
            c = ctx(ts, n, 0, rng)
            if c is None:
                continue
            blocks.append([c] + vecs_fp(n, rng) + chains(ts, n, 'fp'))
    for n in small:
        if n > 48:
            continue
        ts = sample(small[n], 12 if q else 60, rng)
        for ty in ('f64', 'f32'):
            blocks.append(['ctx kind=fl n=%d' % n] + vecs_fl(n, rng) + chains(ts, n, ty))
    run.execute(blocks)


# ------------------------------------------------------------------ C12
@check('C12')
def c12(run):
    q = not run.thorough
    machine(run, 'depth2', 9 if run.thorough else 7)
    machine(run, 'users', 5 if run.thorough else 3)
    for profile in ('chk', 'release'):
        run.execute(op_blocks(run, 2000 if run.thorough else 100), profile=profile, label='op')
    rng = run.rng
    shapes = run.gen('GenCalls', dict(WHAT='shapes', LEN=1, SEG=1))

    def calls(n, i, t, rng, ty):
        r = []
        base = 'call ty=%s i=%s' % (ty, i)
        for m in ('ip', 'oop'):
            for v in (1, 2, 4):
                r.append('%s mode=%s v=%d s=+0 fg=%d' % (base, m, v, rng.randrange(50)))
            for k in (2, 3, 4):
                r.append('%s mode=%s v=%s s=%s fg=%d fs=%d fo=%d' % (base, m, ','.join(str(rng.choice([1, 2, 4])) for _ in range(k)), rng.choice(['+0', '+0', '+1', 'x2']), rng.randrange(50), rng.choice(FILL), rng.choice(FILL)))
        for s in rng.sample(shapes, 14 if q else 120):
            c = shape_call(s, n, rng)
            if c:
                r.append('%s %s fg=%d fs=2 fo=2' % (base, c, rng.randrange(50)))
        return r

    def fenced(n, i, t, rng, ty):
        """the same, every slice flush with an inaccessible page"""
        r = []
        for x in calls(n, i, t, rng, ty):
            if rng.random() < 0.6:
                r.append('%s pl=%d' % (x, rng.choice([1, 1, 2])))
        return r
    trees = one_of_each(run, 2 if q else 6, 32 if q else 64, 3 if q else 20)
    for n, v in big_sets(run, BIG[::2] if q else BIG, 3 if q else 8, 4).items():
        trees[n] = sorted(set(trees.get(n, []) + v))
    for n, v in big_sets(run, HUGE[::4] if q else HUGE, 1 if q else 3, 4).items():
        trees[n] = sorted(set(trees.get(n, []) + v))
    run.execute(fp_blocks(trees, calls, rng, basmax=0))
    fl = {n: sample(trees[n], 3 if q else 12, rng) for n in trees if n <= 32}
    large = fl_large(run)
    run.execute(fl_blocks(fl, calls, rng) + fl_big_blocks(large, calls, rng) + fp_blocks({n: sample(trees[n], 3, rng) for n in trees}, calls, rng, basmax=0), profile='release')
    # inaccessible pages next to every slice and (ef=1) after every allocation of the library
    sel = {n: sample(trees[n], 5 if q else 30, rng) for n in trees}
    few = {n: sample(fl.get(n, []), 2 if q else 10, rng) for n in fl}
    blk = fp_blocks(sel, fenced, rng, basmax=0) + fl_blocks(few, fenced, rng) + fl_big_blocks({n: sample(v, 2 if q else 8, rng) for n, v in large.items()}, fenced, rng)
    run.execute([[b[0] + ' ef=1'] + b[1:] for b in blk], profile='release', label='fence')


# ------------------------------------------------------------------ C13
@check('C13')
def c13(run):
    q = not run.thorough
    api_model(run)
    rng = run.rng
    zero = ['n0', 'z0']
    for _ in range(2):
        nxt = set(zero)
        for z in zero:
            for o in ('b1', 'b2', 'n3', 'b4', 'n7', 'b16', 'r32', 'n0', 'p(n4)', 's(b1,b2)', 'x3(b2)', 'm(b2,b3)'):
                nxt |= {'m(%s,%s)' % (z, o), 'm(%s,%s)' % (o, z)}
            nxt |= {'x%d(%s)' % (k, z) for k in NXN}
            nxt |= {'s(%s,%s)' % (z, z2) for z2 in rng.sample(zero, min(3, len(zero)))}
        zero = sorted(nxt)
        if q and len(zero) > 400:
            zero = sorted(set(['n0', 'm(n0,b2)', 'm(b2,n0)', 'm(n0,n0)', 's(n0,n0)'] + ['x%d(n0)' % k for k in NXN] + rng.sample(zero, 380)))
    run.extra['zero_length_compositions'] = len(zero)
    blocks = []
    # random behaviours of MCDhtApi in which zero-length transforms and others work on the same memory
    for seq in run.gen('MCDhtApi', dict(CELLS=60, DEPTH=10), cfg='GenApi.cfg', simulate=1500 if run.thorough else 120, depth=14):
        ty = rng.choice(['fp', 'f64', 'f32'])
        n = rng.choice([1, 2, 3, 4, 6, 8])
        trees = [rng.choice(zero), rng.choice(leaves(n)), rng.choice(zero)]
        hd = ctx([trees[1]], n, 0, rng) if ty == 'fp' else 'ctx kind=fl n=%d' % n
        blk = [hd] + ['inst ty=%s id=%s t=%s' % (ty, i, t) for i, t in zip('ABC', trees)] + ['arena ty=%s size=%d seed=%d' % (ty, 14 * n + 40, rng.randrange(1 << 30))]
        for o in seq:
            e, f, x = (o['e'], o['f'], o['x']) if o['i'] == 2 else (rng.choice([0, 1, 2, 5, 8]), rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1, 4]))
            blk.append('op ty=%s i=%s mode=%s k=%d e=%d f=%d x=%d base=%d ord=%d g1=%d g2=%d' % (ty, 'ABC'[o['i'] - 1], o['mode'], o['k'], e, f, x, o['base'], o['ord'], o['g1'], o['g2']))
        blocks.append(blk)
    for ty in ('f64', 'fp', 'f32'):
        for a in range(0, len(zero), 60):
            b = ['ctx kind=fl n=0' if ty != 'fp' else ctx(['n1'], 0, 0, rng)]
            for k, t in enumerate(zero[a:a + 60]):
                if ty == 'fp' and rng.random() < 0.5:
                    continue
                b.append('inst ty=%s id=z%d t=%s' % (ty, k, t))
                for m in ('p', 'ip', 'oop'):
                    for _ in range(2 if q else 6):
                        bl, o, s = rng.choice([0, 0, 1, 2, 3, 7, 16]), rng.choice([0, 0, 1, 2, 5, 16]), rng.choice(['0', '1', '+0', '+3', '20'])
                        b.append('call ty=%s i=z%d mode=%s b=%d o=%d s=%s fs=2 fo=7' % (ty, k, m, bl, o, s))
            blocks.append(b)
    for profile in ('chk', 'release'):
        run.execute(blocks, profile=profile)


# ------------------------------------------------------------------ C14
@check('C14')
def c14(run):
    q = not run.thorough
    machine(run, 'depth1', 12 if run.thorough else 6, cfg='MachineHeap.cfg')
    machine(run, 'few', 5, bug='own-scratch', cfg='MachineHeap.cfg')
    machine(run, 'few', 5, bug='leak', cfg='MachineHeap.cfg')
    rng = run.rng

    def calls(n, i, t, rng, ty):
        r = []
        base = 'call ty=%s i=%s' % (ty, i)
        for m in ('ip', 'oop', 'p'):
            # the first use, an exact and a generous amount of scratch, a batch, and a use after a refused call
            for _ in range(2):
                v = ','.join(str(rng.randrange(1, NVEC + 1)) for _ in range(rng.choice([1, 1, 2, 3, 5])))
                r.append('%s mode=%s v=%s fs=%d fo=%d%s' % (base, m, v, rng.choice(FILL), rng.choice(FILL), scr(rng)))
        rng.shuffle(r)
        if n > 1:
            r.insert(rng.randrange(1, len(r)), '%s mode=%s b=%d o=%d s=+0 fs=2 fo=2' % (base, rng.choice(['ip', 'oop']), n + 1, n + 1))
        r.append('%s mode=%s v=0' % (base, rng.choice(['ip', 'oop'])))
        if n <= 64:
            r.append('%s mode=%s v=rnd:%d:%d:0.1.2.4' % (base, rng.choice(['ip', 'oop']), rng.choice([17, 33, 64, 100, 256, 300]), rng.randrange(1000)))
            r.append('%s mode=%s v=1 rep=%d' % (base, rng.choice(['ip', 'oop', 'p']), rng.choice([10, 100, 300])))
        return r
    trees = one_of_each(run, 3 if q else 12, 64, 4 if q else 40)
    for sizes, per in ((BIG[::2] if q else BIG, 2), (HUGE[::3] if q else HUGE, 1), (VAST[::3] if q else VAST, 0)):
        for n, v in big_sets(run, sizes, per if q else 6, 4).items():
            trees[n] = sorted(set(trees.get(n, []) + v))
    us = users_sets(rng, 4 if q else 40)
    for n in us:
        trees[n] = sorted(set(trees.get(n, []) + us[n]))
    blocks = fp_blocks({n: sample(trees[n], 10 if q else 60, rng) for n in trees}, calls, rng, basmax=0)
    blocks += fl_blocks({n: sample(trees[n], 8 if q else 60, rng) for n in trees if n <= 64}, calls, rng)
    blocks += fl_big_blocks({n: sample(trees[n], 5 if q else 20, rng) for n in trees if n > 64}, calls, rng)
    blocks += fl_big_blocks(rader_sets(run, 6 if q else None), calls, rng)
    run.execute(blocks)
    run.execute(rng.sample(blocks, len(blocks) // 3), profile='release')


def users_sets(rng, per):
    """compositions of every algorithm over user-supplied inner transforms"""
    d = collections.defaultdict(set)
    for n in list(range(2, 40)) + [48, 60, 64, 97, 100, 101, 128, 144, 193, 256]:
        for _ in range(per):
            t = rand_tree(n, rng.randrange(1, 4), rng)
            t = re.sub(r'[nbr](\d+)', lambda m: 'u%s:%d:%d' % (m.group(1), rng.choice([0, int(m.group(1)), 2 * int(m.group(1)) + 1, 5 * int(m.group(1))]), rng.choice([0, 0, int(m.group(1)), 3 * int(m.group(1)) + 1]))
                       if int(m.group(1)) <= 128 else m.group(0), t)
            if t[0] != 'u':
                d[n].add(t)
    return {n: sorted(v) for n, v in d.items()}


# ------------------------------------------------------------------ C15
@check('C15')
def c15(run):
    q = not run.thorough
    machine(run, 'users', 5 if run.thorough else 3, cfg='MachineCost.cfg')
    machine(run, 'depth2', 9 if run.thorough else 6, cfg='MachineCost.cfg')
    machine(run, 'depth1', 4, bug='naive-twice', cfg='MachineCost.cfg')
    rng = run.rng

    def calls(n, i, t, rng, ty):
        r = []
        base = 'call ty=%s i=%s' % (ty, i)
        for m in ('ip', 'oop', 'p'):
            for _ in range(3 if n <= 2000 else 1):
                v = ','.join(str(rng.randrange(0, NVEC + 1)) for _ in range(rng.choice([1, 1, 2, 3, 5])))
                r.append('%s mode=%s v=%s fs=%d fo=%d%s' % (base, m, v, rng.choice(FILL), rng.choice(FILL), scr(rng)))
        if n <= 64 and rng.random() < 0.5:
            r.append('%s mode=%s v=rnd:%d:%d:0.1.2.4' % (base, rng.choice(['ip', 'oop', 'p']), rng.choice([17, 33, 64, 100, 256, 300]), rng.randrange(1000)))
            r.append('%s mode=%s v=1 rep=%d' % (base, rng.choice(['ip', 'oop', 'p']), rng.choice([10, 100, 300])))
        return r
    trees = tree_sets(run, 64, 20 if q else 300, 32)
    for sizes, per in ((BIG, 3), (HUGE, 2), (VAST, 1)):
        for n, v in big_sets(run, sizes, per if q else 20, 5).items():
            trees[n] = sorted(set(trees.get(n, []) + v))
    rest = [n for n in range(65, 401 if q else 1500) if n not in BIG] + rng.sample(range(401, 3000), 60 if q else 600)
    for n, v in big_sets(run, rest, 0, 3).items():
        trees[n] = sorted(set(trees.get(n, []) + v))
    us = users_sets(rng, 12 if q else 100)
    for n in us:
        trees[n] = sorted(set(trees.get(n, []) + us[n]))
    # primes too large for a suitable field: operations are counted all the same
    blocks = fp_blocks(trees, calls, rng, basmax=0)
    for n, ts in rader_sets(run, 6 if q else None).items():
        blocks.append(['ctx kind=fl n=%d ks=0' % n] + vecs_fl(n, rng) + [x for k, t in enumerate(ts) for x in ['inst ty=fp id=i%d t=%s' % (k, t)] + calls(n, 'i%d' % k, t, rng, 'fp')])
    run.execute([[b[0] + ' tr=1'] + b[1:] for b in blocks])


# ------------------------------------------------------------------ C16
@check('C16')
def c16(run):
    q = not run.thorough
    rng = run.rng
    for key in ('none', 'tree'):
        run.model('MCBuild', env=dict(NAMES=3, DEPTH=5 if run.thorough else 3, KEY=key), workers=CORES, timeout=3000)
    for key in ('len', 'mod'):
        run.model('MCBuild', env=dict(NAMES=3, DEPTH=4, KEY=key), workers=CORES, expect_fail='is violated')
    hist = run.gen('MCBuild', dict(NAMES=6, DEPTH=30, KEY='none'), cfg='GenBuild.cfg', simulate=3000 if run.thorough else 200, depth=40)
    CT = {'naive': 'n', 'butterfly': 'b', 'radix4': 'r', 'nxn': 'x', 'mixed': 'm', 'rader': 'p', 'split': 's'}

    def expr(r):
        c = CT[r['ctor']]
        kids = ','.join('@N%d' % k for k in r['kids'])
        return c + (str(r['arg']) if c in 'nbrx' else '') + ('(%s)' % kids if kids else '')
    blocks = []
    p, m, z, qs = field(10080, 120)
    for h in hist:
        ty = rng.choice(['fp', 'fp', 'f64', 'f32'])
        hd = 'ctx kind=fp n=120 p=%d m=%d z=%d rs=2 bas=0 qs=%s' % (p, m, z, ','.join(map(str, qs)))
        blk = [hd, 'arena ty=fp size=900 seed=%d' % rng.randrange(1 << 30)]
        for o in h:
            if o['op'] == 'new':
                blk.append('inst ty=fp id=N%d t=%s' % (o['id'], expr(o['r'])))
                # the same construction for other element types in the same process
                for ty in ('f64', 'f32'):
                    if rng.random() < 0.3 and not o['r']['kids']:
                        blk.append('inst ty=%s id=N%d t=%s' % (ty, o['id'], expr(o['r'])))
            elif o['op'] == 'drop':
                blk.append('drop ty=fp id=N%d' % o['id'])
            else:
                blk.append('op ty=fp i=N%d mode=%s k=%d e=0 f=0 x=%d base=%d ord=%d g1=0 g2=1' % (o['id'], o['mode'], rng.choice([1, 1, 2]), rng.choice([0, 0, 3]), rng.randrange(5), rng.randrange(1, 7)))
        blocks.append(blk)
    run.extra['build_histories_replayed'] = len(hist)
    run.execute(blocks, label='hist')
    # floating point: transforms of one length, built amid others of all kinds, lengths and element types
    blocks = []
    noise = ['n%d' % k for k in range(0, 40)] + ['b%d' % k for k in BUTTERFLIES] + ['r%d' % (1 << k) for k in range(13)] + ['r0', 'r3', 'r12', 'p(n8)', 'p(n14)', 's(n2,n5)', 's(n3,n3)', 'p(n0)']
    lens = list(range(1, 49)) + [60, 64, 72, 96, 97, 100, 101, 120, 128, 144, 192, 256, 257]
    for n in rng.sample(lens, 34) if q else lens * 6:
        same = [rand_tree(n, rng.randrange(0, 4), rng) for _ in range(8)] + leaves(n) + [kind_tree(n, k, 2, rng) for k in kinds(n)]
        near = [rand_tree(x, 2, rng) for x in (n + 1, n + 2, 2 * n, 3 * n, 4 * n, n + 4, n + 8, n + 16, n + 32, n + 64, n + 256) if x <= 700 for _ in range(2)]
        ty0 = rng.choice(['fl', 'fl', 'fp'])
        types = ['f64', 'f32'] if ty0 == 'fl' else ['fp']
        hd = 'ctx kind=fl n=%d' % n
        if ty0 == 'fp':
            hd = ctx(same, n, 0, rng)
            if hd is None:
                continue
            mm = int(re.search(r' m=(\d+)', hd).group(1))
            near = [t for t in near if mm % order(t) == 0]
        blk = [hd] + (vecs_fl(n, rng) if ty0 == 'fl' else vecs_fp(n, rng))
        live = []
        for step in range(60 if q else 120):
            x = rng.random()
            ty = rng.choice(types)
            if x < 0.45 or not live:
                t = rng.choice(same)
                i = '%s%d' % (ty, step)
                blk.append('inst ty=%s id=%s t=%s' % (ty, i, t))
                live.append((ty, i))
            elif x < 0.62:
                blk.append('inst ty=%s id=noise%d t=%s' % (ty, rng.randrange(3), rng.choice(noise + near * 2)))
            elif x < 0.7 and len(live) > 1:
                ty, i = live.pop(rng.randrange(len(live)))
                blk.append('drop ty=%s id=%s' % (ty, i))
            else:
                ty, i = rng.choice(live)
                blk.append('call ty=%s i=%s mode=%s v=%d fs=2 fo=2' % (ty, i, rng.choice(['ip', 'oop', 'p']), rng.randrange(1, NVEC + 1)))
        for ty, i in live:
            for mo in ('ip', 'oop'):
                blk.append('call ty=%s i=%s mode=%s v=%d' % (ty, i, mo, rng.randrange(1, NVEC + 1)))
        # on several threads at once
        for _ in range(4 if q else 16):
            ty = rng.choice(types)
            k = rng.choice([2, 2, 3, 4, 8])
            th = '|'.join(';'.join(rng.choice(same + same + near + noise) for _ in range(rng.choice([1, 2, 3, 5]))) for _ in range(k))
            fine = ' fine=%d turn=%d' % (rng.randrange(1 << 20), rng.choice([2, 5, 20])) if ty == 'fp' else ''
            blk.append('build ty=%s th=%s v=1,2,4%s' % (ty, th, fine))
            # one transform, by everybody
            t = rng.choice(same)
            blk.append('build ty=%s th=%s v=1,2,4%s' % (ty, '|'.join([t] * k), fine))
        blocks.append(blk)
    # many rounds of construction on all threads at once: whatever they share is contended
    primes = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 71]
    for n, pool in [(x, ['p(n%d)' % (y - 1) for y in primes]) for x in (7, 23, 41, 71)] + \
                   [(x, ['n%d' % y for y in range(2, 40)]) for x in (6, 13)] + [(x, ['r%d' % (1 << y) for y in range(1, 8)]) for x in (8, 32)] + \
                   [(12, ['x3(b4)', 'x4(b3)', 'x2(b6)', 'x6(b2)', 'm(b3,b4)', 'm(b4,b3)', 's(b3,b6)', 'x3(b8)', 'x5(b6)', 'm(b5,b6)', 's(b4,b8)', 's(n1,n2)']), (16, ['b16', 's(b4,b8)', 'm(b2,b8)', 'b8', 'b9', 'b5', 'x2(b8)', 'x4(b4)', 'r16', 'r32'])]:
        own = [t for t in pool if length(parse(t)) == n] or [rand_tree(n, 1, rng)]
        for ty in ('f64', 'f32'):
            blk = ['ctx kind=fl n=%d' % n] + vecs_fl(n, rng)
            for _ in range(2 if q else 10):
                k = rng.choice([4, 6, 8])
                th = '|'.join(';'.join([rng.choice(own)] + [rng.choice(pool + own) for _ in range(rng.randrange(0, 4))]) for _ in range(k))
                blk.append('build ty=%s th=%s v=1,2,4 ham=%d' % (ty, th, 4000 if q else 30000))
            blocks.append(blk)
    run.execute(blocks)
    fl = [b for b in blocks if 'kind=fl' in b[0]]
    run.execute(rng.sample(fl, len(fl) // 2), profile='release')
    # parades: lengths in random order, built (and used) one after the other on one thread; the last parades mix algorithms and types
    parades = []
    for par in range(CORES):
        lens = rng.sample(range(1, 360), 260 if q else 359) + rng.sample(range(360, 1000), 60 if q else 400)
        rng.shuffle(lens)
        blk = []
        for n in lens:
            blk += ['ctx kind=fl n=%d%s' % (n, ' ks=' + ','.join(map(str, sorted(rng.sample(range(n), 10)))) if n > 12 else ''), 'vec id=1 rand=%d amp=%d' % (rng.randrange(1 << 30), 5 if n < 100 else 2)]
            for t in ['n%d' % n] if par < CORES // 2 else {rng.choice(leaves(n)), kind_tree(n, rng.choice(kinds(n)), rng.randrange(1, 3), rng) if kinds(n) else 'n%d' % n}:
                ty = 'f64' if par % 2 else rng.choice(['f64', 'f32'])
                blk += ['inst ty=%s id=I%s t=%s' % (ty, t[0], t), 'call ty=%s i=I%s mode=%s v=1' % (ty, t[0], rng.choice(['ip', 'oop', 'p']))]
        parades.append(blk)
    run.execute(parades, profile='release', label='parade')


# ------------------------------------------------------------------ C17
@check('C17')
def c17(run):
    q = not run.thorough
    mc = lambda set_, n, bug=None, expect='is violated': run.model('MachineCut', env=dict(SET=set_, N=n, BUG=bug or 'none'), workers=CORES, timeout=3000, expect_fail=expect if bug else None)
    mc('depth1', 8 if run.thorough else 5)
    mc('few', 5)
    mc('threads', 5 if run.thorough else 4)
    mc('few', 5, 'cut-leak')
    mc('few', 5, 'cut-resume')
    mc('few', 5, 'cut-poison', 'CFinishes was violated')
    rng = run.rng
    users = lambda t: re.sub(r'[nbr](\d+)', lambda m: 'u%s:%d:%d' % (m.group(1), rng.choice([0, int(m.group(1)), 2 * int(m.group(1)) + 1]), rng.choice([0, 0, int(m.group(1)) + 1])), t)
    mode = lambda: rng.choice(['ip', 'oop', 'p'])
    # histories: every operation of a call as the crash point, the next call on the same or a sharing instance
    trip = shared_triples(rng)
    blocks = []
    for c, l, a, b in (rng.sample(trip, 110) if q else trip):
        ty = rng.choice(['fp', 'fp', 'fp', 'f64', 'f32'])
        if ty != 'fp' or rng.random() < 0.4:
            a, b, c = (users(x) if rng.random() < 0.8 else x for x in (a, b, c))
        full = [a.replace('@C', c), b.replace('@C', c), c]
        n = length(parse(full[0]))
        hd = ctx(full, n, 0, rng) if ty == 'fp' else 'ctx kind=fl n=%d' % n
        if hd is None or n > 400:
            continue
        blk = [hd] + (vecs_fp(n, rng) if ty == 'fp' else vecs_fl(n, rng))
        blk += ['inst ty=%s id=C t=%s' % (ty, c), 'inst ty=%s id=A t=%s' % (ty, a), 'inst ty=%s id=B t=%s' % (ty, b)]
        for i in 'AAAB':
            then = ['%s:%s:%d' % (w, m, rng.randrange(1, 6)) for w in 'ABC' for m in ('ip', 'oop', 'p')]
            rng.shuffle(then)
            v = ','.join(str(rng.randrange(1, 6)) for _ in range(rng.choice([1, 1, 2, 3]))) if i == 'A' else str(rng.randrange(1, 6))
            blk.append('cut ty=%s i=%s mode=%s v=%s then=%s max=%d seed=%d fs=%d fo=%d%s%s' % (ty, i, mode(), v, ';'.join(then), 40 if q else 400, rng.randrange(1 << 20), rng.choice(FILL), rng.choice(FILL), scr(rng), rng.choice(['', ' pl=1', ' pl=2'])))
        # constructions
        for t in (a, b, c):
            blk.append('cutnew ty=%s t=%s max=%d seed=%d' % (ty, t, 12 if q else 100, rng.randrange(1 << 20)))
        # afterwards
        blk += ['call ty=%s i=A mode=%s v=%d' % (ty, m, rng.randrange(1, 6)) for m in ('ip', 'oop', 'p')]
        # one thread is cut short again and again while the others work
        th = lambda pool: '%s:%s:%d' % (rng.choice(pool), mode(), rng.randrange(1, 6))
        for extra in (['fine=%d' % rng.randrange(1 << 20), 'reps=6'] if ty == 'fp' else ['reps=6']):
            blk.append('conc ty=%s th=%s;%s cut=%d creps=%d %s' % (ty, th('AAC'), ';'.join(th('AABC') for _ in range(rng.choice([1, 2, 3]))), rng.randrange(1 << 20), 12 if q else 60, extra))
        blk.append('build ty=%s th=%s|%s v=1 cut=%d%s' % (ty, full[0], ';'.join(rng.sample(full, 2)), rng.randrange(1 << 20), ' fine=%d' % rng.randrange(1 << 20) if ty == 'fp' else ''))
        blk += ['call ty=%s i=A mode=%s v=%d' % (ty, m, rng.randrange(1, 6)) for m in ('ip', 'oop', 'p')]
        blocks.append(blk)
    run.execute(blocks, shards=4)
    # one memory that persists, behaviours of the interface model with crash points
    blocks = op_blocks(run, 1500 if run.thorough else 150, types=('fp',))
    for blk in blocks:
        for j, x in enumerate(blk):
            if x.startswith('op ') and rng.random() < 0.5:
                blk[j] = x + ' cut=%d' % rng.randrange(1, 2 ** rng.randrange(1, 11))
    run.execute(blocks, label='op')

    # every algorithm, at larger sizes too
    def calls(n, i, t, rng, ty):
        then = ';'.join('%s:%s:%d' % (i, m, rng.randrange(1, 6)) for m in ('ip', 'oop', 'p'))
        return ['cut ty=%s i=%s mode=%s v=%s then=%s max=%d seed=%d%s' % (ty, i, m, ','.join(str(rng.randrange(1, NVEC + 1)) for _ in range(rng.choice([1, 2]))), then, 6 if q else 40, rng.randrange(1 << 20), scr(rng)) for m in ('ip', 'oop', 'p')] + \
               ['cutnew ty=%s t=%s max=%d seed=%d' % (ty, t, 4 if q else 20, rng.randrange(1 << 20))]
    trees = one_of_each(run, 2 if q else 10, 40, 3 if q else 30)
    us = users_sets(rng, 2 if q else 20)
    for n in us:
        trees[n] = sorted(set(trees.get(n, []) + us[n]))
    for n, v in big_sets(run, BIG[::4] if q else BIG, 2 if q else 6, 4).items():
        trees[n] = sorted(set(trees.get(n, []) + v))
    blocks = fp_blocks({n: sample(trees[n], 8 if q else 60, rng) for n in trees}, calls, rng, basmax=0)
    blocks += fl_blocks({n: sample([t for t in trees[n] if 'u' in t], 3 if q else 20, rng) for n in trees if n <= 64}, calls, rng)
    run.execute(blocks, label='alg')
