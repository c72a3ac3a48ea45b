"""Build the driver, execute scenarios against /repo, validate the recorded traces with TLC, report."""
import json, os, re, resource, subprocess, sys, time, random, shutil, math
from concurrent.futures import ThreadPoolExecutor
from decimal import Decimal, getcontext
from functools import lru_cache

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
TARGET = os.path.join(ROOT, 'target')
CORES = max(2, min(8, os.cpu_count() or 4))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(profile):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS'):
        env.pop(k, None)
    r = sh(['cargo', 'build', '--offline', '--quiet', '--profile', profile], cwd=os.path.join(ROOT, 'harness'), env=env, timeout=600)
    if r.returncode != 0:
        raise ToolError('building the driver failed:\n' + r.stdout[-4000:])
    return os.path.join(TARGET, 'release' if profile == 'release' else profile, 'dhtconf')


# ---------------------------------------------------------------- TLC
def tlc(module, env, work, cfg=None, workers=1, timeout=900, extra=(), heap='3g'):
    md = os.path.join(work, 'md_%s_%s' % (module, env.get('TAG', '0')))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap, '-Djava.io.tmpdir=' + work, '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE', *extra,
           '-config', cfg or module + '.cfg', module + '.tla']
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout
    m = re.search(r'(\d+) states generated, (\d+) distinct', out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return dict(rc=r.returncode, out=out, gen=gen, dist=dist)


# ---------------------------------------------------------------- harness
def widen(block, rng):
    """some of the exact scenarios run with elements of 24 bytes (fw), or of 64 bytes on 32-byte boundaries (fa)"""
    ty = rng.choice(['fp', 'fp', 'fp', 'fp', 'fw', 'fa'])
    return block if ty == 'fp' else [l.replace(' ty=fp', ' ty=' + ty) for l in block]


def cpu(pid):
    """processor time of a process and its descendants, in seconds"""
    kids, used = {}, {}
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                f = open('/proc/%s/stat' % d).read().rsplit(')', 1)[1].split()
            except OSError:
                continue
            kids.setdefault(int(f[1]), []).append(int(d))
            used[int(d)] = int(f[11]) + int(f[12])
    todo, t = [pid], 0
    while todo:
        q = todo.pop()
        t += used.get(q, 0)
        todo += kids.get(q, [])
    return t / os.sysconf('SC_CLK_TCK')


def run_harness(binary, scen, trace, total_timeout=600, idle=45):
    """returns the list of raw event lines; crashes and hangs become {"e":"crash"} events"""
    lines, skip, start = [], [], 0
    for attempt in range(12):
        if os.path.exists(trace):
            os.remove(trace)
        cmd = [binary, scen, trace, '--from', str(start)]
        if skip:
            cmd += ['--skip', ','.join(map(str, skip))]
        with open(trace + '.err', 'w') as errf:
            # a runaway allocation ends the process under test, not the sandbox
            pr = subprocess.Popen(cmd, stdout=errf, stderr=errf, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
            t0 = last = time.time()
            size, hang, used = -1, False, None
            while True:
                try:
                    pr.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                s = os.path.getsize(trace) if os.path.exists(trace) else 0
                if s != size:
                    size, last, used = s, time.time(), None
                    continue
                wait = time.time() - last
                if used is None and wait > 2:
                    used = cpu(pr.pid)
                # blocked, or busy for long (on a loaded machine it may just be slow)
                if wait > idle and not 1 < cpu(pr.pid) - used < idle * 0.7 or wait > 6 * idle or time.time() - t0 > total_timeout:
                    hang = True
                    pr.kill()
                    pr.wait()
                    break
        cur = -1
        got = []
        if os.path.exists(trace):
            for l in open(trace, errors='replace'):
                if not l.endswith('}\n'):
                    continue
                if l.startswith('{"e":"at"'):
                    cur = int(l[l.rindex(':') + 1:-2])
                else:
                    got.append(l)
        if pr.returncode == 0 and not hang:
            return lines + got
        err = open(trace + '.err', errors='replace').read()[-600:]
        if cur < 0 or 'main.rs' in err and 'panicked' in err:
            raise ToolError('driver failed: ' + err)
        # drop events of the crashed scenario line, log the crash instead
        got = [l for l in got if json.loads(l).get('sc', -1) < cur]
        why = 'hang' if hang else 'process died (%s)' % pr.returncode
        lines += got
        lines.append(json.dumps(dict(e='crash', sc=cur, why=why, err=err)) + '\n')
        skip.append(cur)
        start = cur + 1
        if attempt >= 2 or hang:
            return lines      # enough evidence
    return lines


@lru_cache(64)
def cas_table(n):
    """cas(2 pi k/n), k = 0..n-1, rounded to 2^-48, by rotation in 2^-240 fixed point"""
    if n == 0:
        return []
    Q = 240
    getcontext().prec = 90
    pi = Decimal('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798')
    t = 2 * pi / n
    if t > pi:
        t -= 2 * pi
    c = term = Decimal(1)
    s = Decimal(0)
    i = 0
    while abs(term) > Decimal(10) ** -85 or i < 8:
        i += 1
        term = term * t / i
        if i % 4 == 1:
            s += term
        elif i % 4 == 2:
            c -= term
        elif i % 4 == 3:
            s -= term
        else:
            c += term
    cc, ss = int(c * (1 << Q)), int(s * (1 << Q))
    x, y = 1 << Q, 0
    res = []
    h = 1 << (Q - 49)
    for _ in range(n):
        q = (x + y + h) >> (Q - 48)
        res.append([q >> 32, (q >> 16) & 0xffff, q & 0xffff])
        x, y = (x * cc - y * ss) >> Q, (x * ss + y * cc) >> Q
    # closing the circle: the accumulated error is far below 2^-48
    assert abs(x - (1 << Q)) < 1 << (Q - 100) and abs(y) < 1 << (Q - 100)
    return res


def validate(prop, lines, work, tag, timeout=900):
    path = os.path.join(work, 'trace_%s.ndjson' % tag)
    with open(path, 'w') as f:
        for l in lines:
            if l.startswith('{"e":"fctx"'):
                d = json.loads(l)
                d['cas'] = cas_table(d['n'])
                l = json.dumps(d) + '\n'
            f.write(l)
    r = tlc('TraceDht', dict(TRACE=path, PROP=prop, TAG=tag), work, timeout=timeout)
    r['n'] = len(lines)
    if 'No error has been found' in r['out'] and 'STUCK' not in r['out']:
        os.remove(path)
        return r, None
    m = re.search(r'<<"STUCK", (\d+), "of", (\d+)>>', r['out'])
    if not m:
        raise ToolError('TLC failed on %s:\n%s' % (path, r['out'][-3000:]))
    k = int(m.group(1))
    why = re.search(r'<<\s*"REJECT",\s*%d,\s*"([^"]*)"' % k, r['out'])
    e = json.loads(lines[k - 1])
    if why is None:
        if e['e'] != 'crash':
            raise ToolError('trace stuck without a reason at line %d of %s: %s\n%s' % (k, path, lines[k - 1][:500], r['out'][-1500:]))
        why = e['why']
    else:
        why = why.group(1)
    if why.startswith('harness'):
        raise ToolError('%s at %s' % (why, lines[k - 1][:500]))
    return r, dict(line=k, why=why, event=e)


class Run:
    """collects scenario blocks, executes and validates them"""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(self.seed * 1000003 + int(prop[1:]))
        self.t0 = time.time()
        self.work = os.path.join(ROOT, '.work', '%s_%d' % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.trans = self.traces = self.events = 0
        self.samples, self.violations, self.extra, self.models = [], [], {}, []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def model(self, module, cfg=None, env=None, workers=4, timeout=600, expect_fail=None, note=''):
        """exhaustive model checking of a specification module (no code involved)"""
        env = env or {}
        tag = '_'.join([(cfg or module).replace('.cfg', '')] + [str(env[k]) for k in sorted(env)])
        r = tlc(module, dict(env, TAG='m' + tag), self.work, cfg=cfg, workers=workers, timeout=timeout, heap='8g')
        ok = 'No error has been found' in r['out'] or 'Model checking completed. No error' in r['out']
        if expect_fail:
            if ok or expect_fail not in r['out']:
                raise ToolError('%s/%s: expected to find "%s"\n%s' % (module, cfg, expect_fail, r['out'][-1500:]))
        elif not ok:
            raise ToolError('specification %s/%s fails its own check:\n%s' % (module, cfg, r['out'][-3000:]))
        self.states += r['dist']
        self.trans += r['gen']
        self.models.append(dict(module=module, config=cfg or module + '.cfg', **({'parameters': env} if env else {}), states=r['dist'], transitions=r['gen'], **({'refutes': expect_fail} if expect_fail else {}), **({'note': note} if note else {})))
        return r

    def apalache(self, module, inv, holds=True, timeout=600):
        """symbolic check over unbounded integers of an invariant of the initial states"""
        out = os.path.join(self.work, 'apalache_' + inv)
        r = sh(['apalache-mc', 'check', '--length=0', '--init=Init', '--next=Next', '--inv=' + inv, '--out-dir=' + out, '--run-dir=' + out + '_run', module + '.tla'], cwd=SPEC, timeout=timeout, env=dict(os.environ, JVM_ARGS='-Xmx4g'))
        want = 'The outcome is: NoError' if holds else 'The outcome is: Error'
        if want not in r.stdout:
            raise ToolError('Apalache on %s/%s: expected "%s"\n%s' % (module, inv, want, r.stdout[-2000:]))
        self.models.append(dict(module=module, invariant=inv, tool='apalache', **({'holds': 'for all integers'} if holds else {'refutes': inv})))

    def gen(self, module, env, timeout=300, cfg=None, simulate=None, depth=100):
        """scenarios written by a specification: exhaustively, or (simulate = how many) random behaviours"""
        out = os.path.join(self.work, module + '.gen.json')
        if os.path.exists(out):
            os.remove(out)
        extra = ('-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.rng.randrange(1 << 40))) if simulate else ()
        r = tlc(module, dict(env, OUT=out, TAG='g'), self.work, timeout=timeout, cfg=cfg, extra=extra)
        if 'Error:' in r['out'] or not (simulate or 'No error' in r['out']) or not os.path.exists(out):
            raise ToolError('generator %s failed:\n%s' % (module, r['out'][-2000:]))
        self.states += r['dist']
        self.trans += r['gen']
        return [json.loads(l) for l in open(out)]

    def execute(self, blocks, profile='chk', shards=CORES, label=''):
        """blocks: lists of scenario lines, each starting with ctx"""
        if not blocks:
            return
        binary = build(profile)
        blocks = [widen(b, random.Random('%s %s %s %d' % (self.seed, profile, label, i))) for i, b in enumerate(blocks)]
        order = sorted(range(len(blocks)), key=lambda i: -sum(len(l) for l in blocks[i]))
        sh_ = [[] for _ in range(min(shards, len(blocks)))]
        load = [0] * len(sh_)
        for i in order:
            k = load.index(min(load))
            sh_[k].append(i)
            load[k] += 20 + len(blocks[i]) + cost(blocks[i])
        jobs = []
        for k, ids in enumerate(sh_):
            tag = '%s%s%d' % (label, profile, k)
            lines = [l for i in ids for l in blocks[i]]
            jobs.append((tag, lines))

        def one(job):
            tag, lines = job
            sc = os.path.join(self.work, 'scen_%s.txt' % tag)
            open(sc, 'w').write('\n'.join(lines) + '\n')
            ev = run_harness(binary, sc, os.path.join(self.work, 'raw_%s.ndjson' % tag))
            r, bad = validate(self.prop, ev, self.work, tag)
            return lines, ev, r, bad
        with ThreadPoolExecutor(len(jobs)) as ex:
            res = list(ex.map(one, jobs))
        for lines, ev, r, bad in res:
            self.states += r['dist']
            self.trans += r['gen']
            self.events += r['n']
            if bad is None:
                self.traces += sum(1 for l in lines if l.startswith('ctx'))
                calls = [l for l in ev if '"e":"call"' in l or '"e":"end"' in l or '"e":"chain"' in l]
                if calls and len(self.samples) < 6:
                    d = json.loads(self.rng.choice(calls))
                    d.pop('out', None)
                    self.samples.append({k: v for k, v in d.items() if len(json.dumps(v)) <= 300})
            else:
                self.violations.append((bad, lines, profile))
        return [l for x in res for l in x[1]]

    def finish(self, level='model_checking', note=None):
        rep = None
        known = load_known()
        unlisted = []
        for bad, lines, profile in self.violations:
            hit = [k for k in known if k['property'] == self.prop and k['match'](bad)]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, hit[0]['what']))
            else:
                unlisted.append((bad, lines, profile))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        for bad, lines, profile in unlisted:
            rep = save_replay(self.prop, bad, lines, profile)
            e = bad['event']
            print('rejected by the specification: %s: transform %s mode=%s res=%s %s' % (bad['why'], e.get('t'), e.get('mode'), e.get('res'), e.get('msg', '')))
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces, samples=self.samples or ['none'], events=self.events, models=self.models)
        cov.update(self.extra)
        d = dict(property=self.prop, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions or ASSUME, wall_s=round(time.time() - self.t0, 2), violations=len(unlisted))
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(d, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if unlisted:
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        print('OK property=%s events=%d traces=%d states=%d (%.1fs)' % (self.prop, self.events, self.traces, self.states, time.time() - self.t0))
        return 0


ASSUME = [
    'the recorded executions are the ones listed; nothing is claimed about compositions or lengths outside them',
    'GF(p) results equal the reals only for programs that combine their constants by field operations (true of generic code over FftNum)',
]


def cost(block):
    """rough TLC cost of the data of a block"""
    c = 0
    n = int(re.search(r' n=(\d+)', block[0]).group(1))
    lg = max(1, n.bit_length())
    m = block[0].count(',') + 1 if ' ks=' in block[0] else n
    if m < n:
        c += n // 4
    if 'bas=1' in block[0]:
        c += n * lg // 8
    for l in block:
        if l.startswith('vec'):
            cnt = n if 'rand' in l or 'const' in l else 8
            c += cnt * lg // 8 if 'kind=fp' in block[0] else cnt * m // 8
        elif l.startswith(('call', 'conc', 'chain')):
            c += m // 16 if 'kind=fl' in block[0] else 1
    return c


def save_replay(prop, bad, lines, profile):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    sc = bad['event'].get('sc', len(lines) - 1)
    b = max(i for i in range(sc + 1) if lines[i].startswith('ctx'))
    path = os.path.join(d, '%s.txt' % prop)
    with open(path, 'w') as f:
        f.write('# property %s: %s\n# event: %s\n# rerun: python3 /verif/check.py %s --replay %s --profile %s\n' % (prop, bad['why'], json.dumps(bad['event'])[:1500], prop, path, profile))
        f.write('\n'.join(lines[b:sc + 1]) + '\n')
    return path


def load_known():
    """open findings only; 'fixed:' entries suppress nothing"""
    res = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) tree=(\S+) mode=(\S+) why="([^"]*)" (.*)', l)
            if m:
                pr, t, mo, why, what = m.groups()
                res.append(dict(property=pr, what=what, match=lambda b, t=t, mo=mo, why=why: b['event'].get('t') == t and b['event'].get('mode') == mo and b['why'] == why))
    return res
