"""Shared machinery: run TLC, turn its state graph into test plans, build harnesses, run plans, report."""
import concurrent.futures as cf
import hashlib, json, mmap, os, random, re, shutil, signal, struct, subprocess, sys, threading, time
from collections import deque

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
BUILD = os.path.join(ROOT, 'build')
OUT = os.path.join(ROOT, 'out')
CXX = 'g++-14'
BASE_FLAGS = ['-std=c++23', '-g1', '-O0', '-DVERIF', '-w', '-fno-omit-frame-pointer']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=nonnull-attribute,vptr']
NPROC = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself could not give an answer (exit code 2)."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def tier():
    return 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


# ------------------------------------------------------------------ TLC
TLC_JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def run_tlc(spec, cfg_text, name, workers=4, timeout=600, heap='4g', extra=(), env=None, deque_queue=False, lib=None):
    """Run TLC on specs/<spec>.tla with the given cfg text. Returns (lines printed by the spec, stats, raw text)."""
    d = os.path.join(BUILD, 'tlc', name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfg = os.path.join(d, 'm.cfg')
    with open(cfg, 'w') as f:
        f.write(cfg_text)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + d]
    if deque_queue:
        cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-cp', TLC_JAR]
    cmd += ['tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
            '-config', cfg, *extra, os.path.join(lib or os.path.join(ROOT, 'specs'), spec + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    for attempt in (0, 1):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError(f'TLC timed out on {spec} ({name})')
        raw = p.stdout.decode('utf-8', 'replace')
        if 'Starting...' in raw:
            break
    st = {}
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', raw)
    if m:
        st['generated'], st['distinct'] = int(m.group(1)), int(m.group(2))
    st['rc'] = p.returncode
    st['ok'] = p.returncode == 0 and 'No error has been found' in raw
    shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    with open(os.path.join(d, 'tlc.log'), 'w') as f:
        f.write('\n'.join(l for l in raw.split('\n') if not l.startswith('"@')))
    return [l for l in raw.split('\n') if l.startswith('"@')], st, raw


def tail(txt, n=25):
    return '\n'.join([l for l in txt.strip().split('\n') if not l.startswith('"@')][-n:])


def mbt_cfg(consts=None, invariants=(), extra=''):
    s = 'INIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    if consts:
        s += 'CONSTANTS\n' + ''.join(f'  {k} = {v}\n' for k, v in consts.items())
    for i in invariants:
        s += f'INVARIANT {i}\n'
    return s + extra


class Graph:
    def __init__(self):
        self.ids, self.out = {}, []
        self.init = None
        self.ntrans = 0
        self.generated = 0

    def sid(self, key):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.out)
            self.out.append([])
        return i


def _canon(v):
    if isinstance(v, dict):
        ks = sorted(v)
        if ks and all(k.isdigit() for k in ks) and sorted(map(int, ks)) == list(range(1, len(ks) + 1)):
            return [_canon(v[str(i)]) for i in range(1, len(ks) + 1)]
        return {k: _canon(v[k]) for k in ks}
    if isinstance(v, list):
        return [_canon(x) for x in v]
    return v


def canon(v):
    return json.dumps(_canon(v))


def mbt_graph(spec, name, consts=None, invariants=(), workers=4, timeout=600, extra='', heap='4g'):
    g = Graph()
    trans = set()
    inits = set()
    # one worker: TLC 1.8 with several workers occasionally fails with "nonexistent field" on a record that has the
    # field (values are normalised in place). A failed run is repeated: a real violation of the specification fails again.
    for w in (1, 1):
        lines, st, raw = run_tlc(spec, mbt_cfg(consts, invariants, extra), name, workers=w, timeout=timeout, heap=heap)
        if not st['ok']:
            with open(os.path.join(BUILD, 'tlc-failed.log'), 'a') as f:
                f.write(f'--- {spec} {name} workers={w}\n' + tail(raw, 200) + '\n')
            continue
        try:
            for l in lines:
                t = json.loads(l)
                if t.startswith('@T'):
                    v = json.loads(t[2:])
                    trans.add((canon(v[0]), v[1][0], v[1][1], canon(v[2])))
                elif t.startswith('@I'):
                    inits.add(canon(json.loads(t[2:])))
        except ValueError as e:  # output of two workers in one line
            st['ok'] = False
            raw += f'\nunreadable output: {e}'
            trans, inits = set(), set()
            continue
        break
    if not st['ok']:
        raise CheckError(f'TLC failed on specification {spec} ({name}):\n{tail(raw)}')
    if not trans or len(inits) != 1:
        raise CheckError(f'{spec}: expected transitions and one initial state, got {len(trans)}/{len(inits)}')
    g.init = g.sid(next(iter(inits)))
    if next(iter(inits)) not in {t[0] for t in trans}:
        raise CheckError(f'{spec}: the initial state has no transitions')
    for a, op, obs, b in sorted(trans):
        g.out[g.sid(a)].append((op, obs, g.sid(b)))
    g.ntrans = len(trans)
    g.generated = st.get('generated', 0)
    seen = {}
    for s, outs in enumerate(g.out):
        for op, obs, b in outs:
            k = (s, op)
            if k in seen and seen[k] != (obs, b):
                raise CheckError(f'{spec}: nondeterministic operation {op}: {seen[k][0]!r} vs {obs!r}')
            seen[k] = (obs, b)
    return g


def plan_tour(g, max_len=60, rng=None):
    """Traces (lists of (op, obs)) from the initial state which together take every transition."""
    n = len(g.out)
    order = []
    for s in range(n):
        o = list(range(len(g.out[s])))
        if rng:
            rng.shuffle(o)
        order.append(o)
    nxt = [0] * n
    # BFS tree for shortest prefixes
    par = [None] * n
    dist = [-1] * n
    dist[g.init] = 0
    q = deque([g.init])
    while q:
        s = q.popleft()
        for k, (op, obs, b) in enumerate(g.out[s]):
            if dist[b] < 0:
                dist[b] = dist[s] + 1
                par[b] = (s, k)
                q.append(b)

    def prefix(s):
        p = []
        while par[s] is not None:
            p.append(par[s])
            s = par[s][0]
        return p[::-1]

    traces = []
    todo = sorted((s for s in range(n) if dist[s] >= 0 and g.out[s]), key=lambda s: dist[s])
    left = {s for s in todo}
    ptr = 0
    while ptr < len(todo):
        s0 = todo[ptr]
        if nxt[s0] >= len(order[s0]):
            ptr += 1
            continue
        path = prefix(s0)
        tr = [(g.out[a][k][0], g.out[a][k][1]) for a, k in path]
        cur = s0
        limit = max(max_len, len(tr) + 1)
        while len(tr) < limit:
            if nxt[cur] < len(order[cur]):
                op, obs, b = g.out[cur][order[cur][nxt[cur]]]
                nxt[cur] += 1
                tr.append((op, obs))
                cur = b
                continue
            # look for a nearby state with untaken transitions
            seen = {cur: None}
            dq = deque([(cur, 0)])
            hit = None
            while dq and len(seen) < 400:
                x, dd = dq.popleft()
                if dd >= 6:
                    break
                for k, (op, obs, b) in enumerate(g.out[x]):
                    if b not in seen:
                        seen[b] = (x, k)
                        if nxt[b] < len(order[b]):
                            hit = b
                            dq.clear()
                            break
                        dq.append((b, dd + 1))
            if hit is None:
                break
            walk = []
            b = hit
            while seen[b] is not None:
                walk.append(seen[b])
                b = seen[b][0]
            for a, k in walk[::-1]:
                tr.append((g.out[a][k][0], g.out[a][k][1]))
            cur = hit
        traces.append(tr)
    return traces


def plan_walks(g, count, length, rng):
    traces = []
    for _ in range(count):
        s, tr = g.init, []
        for _ in range(length):
            if not g.out[s]:
                break
            op, obs, b = rng.choice(g.out[s])
            tr.append((op, obs))
            s = b
        if tr:
            traces.append(tr)
    return traces


# ------------------------------------------------------------------ building
_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for base in (INC, os.path.join(ROOT, 'harness')):
            for d, ds, fs in sorted(os.walk(base)):
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
        _tree_hash = h.hexdigest()
    return _tree_hash


LIMIT = ['prlimit', f'--as={14 << 30}'] if shutil.which('prlimit') else []  # a compilation that explodes is stopped


def build(src, defs=(), san=True, flags=(), name=None, timeout=600):
    """Compile harness/<src>. Returns path of the executable or raises Violation/CheckError."""
    if not os.path.isabs(src):
        src = os.path.join(ROOT, 'harness', src)
    cmd = [*LIMIT, CXX, *BASE_FLAGS, *(SAN if san else []), *flags, *['-D' + d for d in defs], '-I', INC,
           '-I', os.path.join(ROOT, 'harness')]
    key = hashlib.sha256((tree_hash() + ' '.join(cmd) + src).encode())
    with open(src, 'rb') as f:
        key.update(f.read())
    name = name or os.path.splitext(os.path.basename(src))[0]
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    exe = os.path.join(BUILD, 'bin', f'{name}-{key.hexdigest()[:20]}')
    with _locks_guard:
        lock = _locks.setdefault(exe, threading.Lock())
    with lock:
        return _build(src, cmd, exe, name, defs, timeout)


_locks, _locks_guard = {}, threading.Lock()


def _build(src, cmd, exe, name, defs, timeout):
    if os.path.exists(exe):
        return exe
    err = ''
    for attempt in (0, 1):
        tmp = exe + f'.tmp{os.getpid()}'
        try:
            p = subprocess.run(cmd + [src, '-o', tmp, '-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f'compiling {src} timed out')
        if p.returncode == 0:
            os.rename(tmp, exe)
            return exe
        err = p.stdout.decode('utf-8', 'replace')
    # does the library itself still compile?
    with open(src) as f:
        heads = re.findall(r'#\s*include\s*[<"](dice/template-library/[^>"]+)[>"]', f.read())
    probe = os.path.join(BUILD, 'bin', f'probe-{name}-{os.getpid()}-{threading.get_ident()}.cpp')
    with open(probe, 'w') as f:
        f.write(''.join(f'#include <{h}>\n' for h in heads) + 'int main(){}\n')
    q = subprocess.run([CXX, *BASE_FLAGS, '-fsyntax-only', '-I', INC, probe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    os.unlink(probe)
    msg = '\n'.join([l for l in err.split('\n') if 'error' in l][:12])
    if q.returncode != 0:
        raise CheckError('the library headers do not compile:\n' + q.stdout.decode('utf-8', 'replace')[:2000])
    with open(src) as f:
        text = f.read()
    if '#define std vstd' in text:  # is it only the instrumented standard library that lacks something?
        with open(probe, 'w') as f:
            f.write(text.replace('#define std vstd', ''))
        q = subprocess.run([*cmd, '-fsyntax-only', probe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.unlink(probe)
        if q.returncode == 0:
            raise CheckError(f'{os.path.basename(src)} compiles with the standard library, but not with the instrumented one:\n{msg}')
    raise CompileFail(f'documented use of the public API no longer compiles ({os.path.basename(src)} {" ".join(defs)}):\n{msg}', err)


class CompileFail(Violation):
    def __init__(self, what, log):
        super().__init__(what)
        self.log = log


def build_all(jobs):
    """jobs: list of (src, kwargs). Built in parallel."""
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(build, s, **kw) for s, kw in jobs]
        return [f.result() for f in futs]


# ------------------------------------------------------------------ running plans
def write_plan(path, traces):
    with open(path, 'w') as f:
        for t in traces:
            f.write('!\n')
            for op, obs in t:
                assert '\n' not in op and '\n' not in obs and '\t' not in op
                f.write(op + '\t' + obs + '\n')


SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0',
           'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98'}


def run_plan(exe, traces, tag, args=(), timeout=300, env=None):
    """Run one plan. Returns None if everything matched, otherwise a dict describing the failure."""
    d = os.path.join(BUILD, 'plans')
    os.makedirs(d, exist_ok=True)
    plan = os.path.join(d, tag + '.plan')
    prog = os.path.join(d, tag + '.prog')
    res = os.path.join(d, tag + '.res')
    write_plan(plan, traces)
    with open(prog, 'wb') as f:
        f.write(b'\0' * 16)
    if os.path.exists(res):
        os.unlink(res)
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env or {})
    errf = os.path.join(d, tag + '.err')
    with open(errf, 'wb') as ef:
        try:
            p = subprocess.run([exe, plan, prog, res, *args], stdout=ef, stderr=ef, timeout=timeout, env=e, stdin=subprocess.DEVNULL)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    with open(prog, 'rb') as f:
        tr, step = struct.unpack('<QQ', f.read(16))
    with open(errf, 'rb') as f:
        err = f.read().decode('utf-8', 'replace')
    for x in (plan, prog, errf):
        os.unlink(x)
    if rc == 0:
        return None
    if rc == -signal.SIGKILL:
        raise CheckError(f'{exe} was killed')
    r = dict(trace=tr, step=step, stderr=err[-6000:])
    if rc == 3 and os.path.exists(res):
        with open(res) as f:
            r['got'] = f.read()
        r['kind'] = 'mismatch'
    elif rc == 4:
        raise CheckError(f'harness error: {err[-2000:]}')
    elif rc == 'timeout':
        r['kind'] = 'hang'
    else:
        r['kind'] = 'crash'
        r['rc'] = rc
    return r


def summarize_crash(err):
    for pat in (r'ERROR: AddressSanitizer: [^\n]*', r'runtime error: [^\n]*', r'Assertion [^\n]*failed', r'terminate called[^\n]*', r'what\(\):[^\n]*'):
        m = re.search(pat, err)
        if m:
            return m.group(0)
    return err.strip().split('\n')[-1][:200] if err.strip() else 'abnormal termination'


class Ctx:
    """Collects coverage of one check run and produces evidence, replay files and the verdict."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = self.trans = self.traces = self.steps = 0
        self.samples = []
        self.detail = {}
        self.ops = {}
        self.assumptions = []
        self.exhaustive = True
        self.tier, self.seed = tier(), seed()
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count_ops(self, traces):
        for t in traces:
            for op, obs in t:
                k = op.split(' ', 1)[0]
                self.ops[k] = self.ops.get(k, 0) + 1

    def mbt(self, spec, harness, consts=None, name=None, defs=(), args=(), invariants=(), max_len=60, walks=0, walk_len=60,
            timeout=300, tlc_timeout=600, workers=4, graph=None, san=True, flags=(), extra='', heap='4g', env=None, exe=None):
        """One model-based test job: spec -> graph -> plan -> run on the real code."""
        name = f'{self.pid}-{name or spec}'
        with cf.ThreadPoolExecutor(2) as ex:
            fb = ex.submit(build, harness, defs, san, flags) if exe is None else None
            g = graph or mbt_graph(spec, name, consts, invariants, workers=workers, timeout=tlc_timeout, extra=extra, heap=heap)
            try:
                exe = exe or fb.result()
            except CompileFail as e:
                path = os.path.join(OUT, f'{name}-compile.txt')
                with open(path, 'w') as f:
                    f.write(e.what + '\n\n' + e.log)
                raise Violation(e.what, path)
        rng = random.Random(self.rng.random())
        traces = plan_tour(g, max_len, rng)
        if walks:
            traces += plan_walks(g, walks, walk_len, rng)
        self.run_traces(exe, traces, name, args, timeout, env, src=harness, defs=defs)
        self.states += len(g.out)
        self.trans += g.ntrans
        self.detail[name] = dict(states=len(g.out), transitions=g.ntrans, traces=len(traces), steps=sum(map(len, traces)))
        return g

    def run_traces(self, exe, traces, name, args=(), timeout=300, env=None, src='', defs=()):
        n = max(1, min(NPROC, len(traces)))
        shards = [traces[i::n] for i in range(n)]
        with cf.ThreadPoolExecutor(n) as ex:
            futs = [ex.submit(run_plan, exe, sh, f'{name}-{i}', args, timeout, env) for i, sh in enumerate(shards)]
            results = [f.result() for f in futs]
        self.traces += len(traces)
        self.steps += sum(map(len, traces))
        self.count_ops(traces)
        if len(self.samples) < 6 and traces:
            for t in (traces[0], traces[len(traces) // 2]):
                self.samples.append([f'{op} -> {obs}' for op, obs in t[:14]])
        for sh, r in zip(shards, results):
            if r is None:
                continue
            tr = sh[min(r['trace'], len(sh) - 1)]
            # try to reproduce with this trace alone, for a small replay
            alone = None
            try:
                alone = run_plan(exe, [tr], f'{name}-alone', args, min(timeout, 60), env)
            except CheckError:
                pass
            use = [tr] if alone else sh[:r['trace'] + 1]
            r2 = alone or r
            if r['kind'] == 'hang' and alone is None:
                again = run_plan(exe, sh[:r['trace'] + 1], f'{name}-again', args, timeout * 2, env)
                if again is None:
                    raise CheckError(f'{name}: timed out once, did not repeat')
            self.fail_trace(name, tr, r2, exe, use, args, src, defs)

    def fail_trace(self, name, tr, r, exe, use, args, src, defs):
        path = os.path.join(OUT, f'{name}-replay.txt')
        st = r['step']
        with open(path, 'w') as f:
            f.write(f'property {self.pid}  job {name}  harness {src} {" ".join(defs)} {" ".join(args)}\n')
            if r['kind'] == 'mismatch':
                exp = tr[st][1] if st < len(tr) else '(end of history: nothing left over)'
                op = tr[st][0] if st < len(tr) else 'end'
                what = f'step {st} "{op}": specification says "{exp}", implementation did "{r["got"]}"'
            elif r['kind'] == 'hang':
                op = tr[st][0] if st < len(tr) else 'end'
                what = f'step {st} "{op}" does not terminate'
            else:
                op = tr[st][0] if st < len(tr) else 'end'
                what = f'step {st} "{op}" crashed: {summarize_crash(r["stderr"])}'
            f.write(what + '\n\nhistory (operation -> observation demanded by the specification):\n')
            for i, (op, obs) in enumerate(tr[:st + 1]):
                f.write(f'  {i}: {op} -> {obs}\n')
            f.write('\noutput of the implementation run:\n' + r['stderr'] + '\n')
            f.write(f'\nto run again: the plan is in {path}.plan;  {exe} {path}.plan /tmp/prog /tmp/res {" ".join(args)}\n')
        write_plan(path + '.plan', use)
        raise Violation(what, path)

    def pure(self, *a, **kw):
        kw.setdefault('max_len', 400)
        return self.mbt(*a, **kw)

    def evidence(self, violations, level='model_checking', extra=None):
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   implementation_steps=self.steps, samples=self.samples[:6], operations=self.ops, jobs=self.detail)
        cov.update(extra or {})
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def known_findings():
    """Open findings: lines 'finding: property=<id> key=<key> <what fails>'."""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out
