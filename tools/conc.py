"""Concurrent properties: explore interleavings of the real code, validate every distinct history with TLC."""
import itertools
from vlib import *


def annotate(h):
    """Give every invocation the result it will have ('?' if it never returns)."""
    open_, out = {}, []
    for e in h:
        k, t, a, b = e
        if k == 'i':
            x = [k, t, a, b, '?', 0]
            open_[t] = x
            out.append(x)
        elif k == 'r':
            x = open_.pop(t)
            x[4], x[5] = a, b
            out.append([k, t, '', 0, '', 0])
        else:
            out.append([k, t, a, b, '', 0])
    return out


def explore(c, exe, scenarios, name, max_runs, rand_runs, pb, timeout=400):
    """Returns list of (scenario id, head, history, path) plus statistics."""
    d = os.path.join(BUILD, 'plans')
    os.makedirs(d, exist_ok=True)
    n = min(NPROC, len(scenarios))
    shards = [scenarios[i::n] for i in range(n)]

    def one(i):
        base = os.path.join(d, f'{name}-{i}')
        with open(base + '.sc', 'w') as f:
            f.write('\n'.join(shards[i]) + '\n')
        with open(base + '.prog', 'wb') as f:
            f.write(b'\0' * 16)
        cmd = [exe, base + '.sc', base + '.prog', base + '.hist', str(max_runs), str(rand_runs), str(c.seed), str(pb)]
        with open(base + '.err', 'wb') as ef:
            try:
                p = subprocess.run(cmd, stdout=ef, stderr=ef, timeout=timeout, env={**os.environ, **SAN_ENV})
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        err = open(base + '.err', 'rb').read().decode('utf-8', 'replace')
        with open(base + '.prog', 'rb') as f:
            sc, run = struct.unpack('<QQ', f.read(16))
        if rc == -signal.SIGKILL or rc == 4:
            raise CheckError(f'{name}: explorer failed ({rc}): {err[-500:]}')
        if rc != 0:
            scen = shards[i][min(sc, len(shards[i]) - 1)]
            return ('fail', rc, scen, run, err)
        res, st = [], []
        with open(base + '.hist') as f:
            for l in f:
                v = json.loads(l)
                (st if 'stat' in v else res).append(v)
        for x in ('.sc', '.prog', '.hist', '.err'):
            os.unlink(base + x)
        return ('ok', res, st)

    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    for r in rs:
        if r[0] == 'fail':
            _, rc, scen, run, err = r
            what = ('does not terminate' if rc == 'timeout' else 'crashed: ' + summarize_crash(err))
            path = os.path.join(OUT, f'{name}-replay.txt')
            with open(path, 'w') as f:
                f.write(f'property {c.pid}: scenario {scen}\nrun {run}: {what}\n\n{err[-6000:]}\n')
            if rc == 'timeout':
                raise CheckError(f'{name}: explorer timed out in scenario {scen}')
            raise Violation(f'scenario "{scen}": the implementation {what}', path)
    return [x for r in rs for x in r[1]], [x for r in rs for x in r[2]]


def tlc_histories(spec, consts, hists, name, parts=4, timeout=600, report='Report'):
    """Which histories does the specification accept? Returns (set of rejected indices, states)."""
    parts = max(1, min(parts, len(hists) // 50 + 1))
    idx = [list(range(i, len(hists), parts)) for i in range(parts)]

    def one(p):
        d = os.path.join(BUILD, 'tlc')
        os.makedirs(d, exist_ok=True)
        hf = os.path.join(d, f'{name}-{p}.ndjson')
        with open(hf, 'w') as f:
            for i in idx[p]:
                f.write(json.dumps(hists[i]) + '\n')
        cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT ' + report + '\n' + ('CONSTANTS\n' + ''.join(f'  {k} = {v}\n' for k, v in consts.items()) if consts else '')
        for w in (1, 1):
            lines, st, raw = run_tlc(spec, cfg, f'{name}-{p}', workers=w, timeout=timeout, env={'HISTORIES': hf}, heap='3g')
            if st['ok']:
                break
        if not st['ok']:
            raise CheckError(f'TLC failed on {spec} ({name}):\n{tail(raw)}')
        if report == 'Report':
            acc = {idx[p][int(json.loads(l)[2:]) - 1] for l in lines if l.startswith('"@A')}
        else:
            acc = [int(json.loads(l)[2:]) for l in lines if l.startswith('"@P')]
        os.unlink(hf)
        return acc, st

    with cf.ThreadPoolExecutor(parts) as ex:
        rs = list(ex.map(one, range(parts)))
    if report != 'Report':
        return rs[0][0], rs[0][1]
    acc = set().union(*[r[0] for r in rs])
    return set(range(len(hists))) - acc, sum(r[1].get('distinct', 0) for r in rs), sum(r[1].get('generated', 0) for r in rs)


def validate(c, spec, consts, records, name, scen_by_id=None, mkhist=None):
    """records: dicts sc/head/h/path. Violation if the specification rejects one."""
    mk = mkhist or (lambda r: {'h': annotate(r['h']), 'cap': int(r['head'].split(',')[0])})
    seen, hists, recs = set(), [], []
    for r in records:
        x = mk(r)
        k = json.dumps(x)
        if k not in seen:
            seen.add(k)
            hists.append(x)
            recs.append(r)
    rej, distinct, gen = tlc_histories(spec, consts, hists, name)
    c.states += distinct
    c.trans += gen
    c.traces += len(hists)
    c.steps += sum(len(x['h']) for x in hists)
    for x in hists:
        for e in x['h']:
            if e[0] == 'i':
                c.ops[e[2]] = c.ops.get(e[2], 0) + 1
    if hists and len(c.samples) < 6:
        for k in (0, len(hists) // 2):
            c.samples.append(dict(scenario=recs[k]['sc'], events=[' '.join(map(str, e)) for e in recs[k]['h'][:30]]))
    c.detail[name] = dict(histories=len(hists), states=distinct)
    if rej:  # a history counts as rejected when it is rejected twice
        rej = sorted(rej, key=lambda i: len(hists[i]['h']))[:50]
        rej2, _, _ = tlc_histories(spec, consts, [hists[i] for i in rej], name + '-again')
        rej = [rej[i] for i in rej2]
    if rej:
        k = min(rej, key=lambda i: len(hists[i]['h']))
        prog, _ = tlc_histories(spec, consts, [hists[k]], name + '-prefix', report='Progress')
        upto = max(prog)
        path = os.path.join(OUT, f'{name}-replay.txt')
        r = recs[k]
        ev = r['h'][upto - 1] if upto <= len(r['h']) else r['h'][-1]
        what = (f'scenario {r["sc"]}: {spec} with {consts} does not allow event {upto} of this history: '
                f'{" ".join(map(str, ev))}')
        with open(path, 'w') as f:
            f.write(f'property {c.pid} job {name}\n{what}\n{len(rej)} of {len(hists)} histories rejected\n')
            if scen_by_id:
                f.write(f'scenario: {scen_by_id.get(r["sc"])}\n')
            f.write(f'schedule (choices of the deterministic scheduler): {r.get("path")}\n\n')
            for i, e in enumerate(r['h'], 1):
                f.write(f'{"-->" if i == upto else "   "} {i}: {" ".join(map(str, e))}\n')
        raise Violation(what, path)


# ------------------------------------------------------------------ scenarios for the two channels
def chan_scenarios(c, exchange, throwing, quick_n):
    rng = random.Random(c.seed * 31 + 5)
    out = []

    def add(cap, drain, el, *threads):
        out.append((cap, drain, el, threads))
    caps = [1, 2]
    # families that every aspect needs
    for cap in caps:
        add(cap, 0, 'N', 'P1 P2 P3', 'O O', 'O')
        add(cap, 1, 'N', 'P1 M2', 'E3 P4', 'O O')
        add(cap, 2, 'N', 'P1 P2', 'I', 'C')
        add(cap, 1, 'N', 'O', 'O', 'C')
        add(cap, 0, 'N', 'O', 'O', 'P1 P2')
        add(cap, 0, 'N', 'O', 'I1', 'P1', 'P2')
        add(cap, 1, 'N', 'P1 P2 P3', 'C', 'o O')
        add(cap, 0, 'N', 'P1 P2', 'P3', 'C')
        add(cap, 2, 'N', 'P1 C P2', 'c O c', 'O c')
        add(cap, 0, 'N', 'P1 P2', 'E3 E4', 'o o O')
        add(cap, 4, 'N', 'P1 P2', 'M3', 'O o')
        add(cap, 0, 'N', 'C C', 'P1 c', 'J')
        add(cap, 0, 'N', 'C', 'C', 'P1', 'O')
        add(cap, 0, 'N', 'C P1', 'P2 P3', 'O O')
    if not exchange:
        for cap in (1, 2):
            add(cap, 0, 'N', 'p1 m2', 'e3 p4', 'o o')
            add(cap, 1, 'N', 'p1 p2', 'O O', 'C p5')
            add(cap, 0, 'N', 'P1 p2 p3', 'O O', 'e4')
            add(cap, 0, 'N', 'P1 P2 P3', 'P4', 'o o')
            add(cap, 5, 'N', 'p1 e2 m3', 'p4 P5', 'O')
        add(0, 0, 'N', 'P1', 'p2 O', 'C')
        add(0, 0, 'N', 'P1', 'O', 'o')
        add(2, 0, 'N', 'P1 P2 P3 P4', 'O', 'O')
        add(1, 0, 'N', 'P1', 'P2', 'P3', 'O O')
        add(1, 0, 'N', 'P1 P2', 'P3', 'O', 'O')
        add(3, 0, 'N', 'P1 P2', 'P3 P4', 'O O O')
    else:
        add(0, 4, 'N', 'P1 P2 P3', 'O O')
        add(0, 4, 'N', 'P1', 'P2', 'P3', 'o O')
        add(0, 0, 'N', 'O', 'O', 'O', 'P1 P2')
    if throwing:
        for cap in caps:
            add(cap, 0, 'T', 'X1 E2', 'O', 'O')
            add(cap, 0, 'T', 'P1 X2', 'P3', 'O O')
            add(cap, 0, 'T', 'B1 P2', 'O', 'O')
            add(cap, 0, 'T', 'B1 E2', 'O', 'o O')
            add(cap, 0, 'T', 'P1 Y2', 'E3', 'O O', 'C')
            add(cap, 0, 'T', 'P1 P2', 'X3', 'E4', 'O O')
            add(cap, 0, 'T', 'B1', 'B2', 'O', 'O')
            add(cap, 0, 'T', 'B1', 'O', 'O')
            add(cap, 0, 'T', 'B1', 'O O', 'O', 'o')
            add(cap, 0, 'T', 'P1 B2', 'O', 'O', 'O')
            add(cap, 0, 'T', 'X1', 'O', 'P2')
            add(cap, 0, 'T', 'B1', 'O', 'O', 'C')
            add(cap, 2, 'T', 'B1 P2', 'I2', 'O')
            add(cap, 0, 'T', 'P1 B2', 'J2', 'O')
            add(cap, 2, 'T', 'B1', 'I1', 'O')
            # an element that throws while it is taken out stays in the channel
            add(cap, 1, 'T', 'B1 o O')
            add(cap, 1, 'T', 'B1 O o')
            add(cap, 1, 'T', 'B1', 'o O')
            add(cap, 4, 'T', 'B1 C', 'o o', 'O')
            if not exchange and cap > 1:
                add(cap, 1, 'T', 'B1 P2 o o O')
                add(cap, 1, 'T', 'P1 B2 O o C I4')
            if not exchange:
                add(cap, 0, 'T', 'x1 p2', 'x3 O', 'o O')
    # the same shapes with every kind of push and pop
    shapes = [('N', 'O', 'O', 'P1 P2'), ('N', 'O', 'O', 'P1', 'P2'), ('N', 'P1 P2', 'P3', 'O O'), ('N', 'P1 P2', 'P3', 'O', 'O'),
              ('N', 'P1 P2 P3', 'O', 'O O'), ('N', 'O C', 'P1', 'O'), ('N', 'P1 P2', 'C', 'O O'), ('N', 'P1', 'P2', 'P3', 'O O'),
              ('N', 'O O', 'P1 O', 'P2')]
    pk = ['P', 'M', 'E'] + ([] if exchange else ['p', 'm', 'e'])
    for sh in shapes:
        for cap in ([1, 2] if not exchange else [0]):
            for k in range(6 if not exchange else 5):
                ths = []
                for t in sh[1:]:
                    ops = []
                    for o in t.split():
                        if o[0] == 'P':
                            ops.append((pk[k % len(pk)] if k < 4 else rng.choice(pk)) + o[1:])
                        elif o[0] == 'O':
                            ops.append('O' if k == 0 else rng.choice(['O', 'O', 'o', 'I1']) if k != 3 else 'O')
                        else:
                            ops.append(o)
                    ths.append(' '.join(ops))
                add(cap, rng.choice([0, 1, 4]), sh[0], *ths)
    # seeded random mixes
    kinds = ['P', 'M', 'E'] + ([] if exchange else ['p', 'm', 'e'])
    for k in range(quick_n):
        el = 'T' if throwing and rng.random() < .35 else 'N'
        nt = rng.choice([2, 3, 3, 4])
        v, ths = 1, []
        for t in range(nt):
            ops = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                r = rng.random()
                if r < .45:
                    kk = kinds + (['X', 'Y', 'B'] + ([] if exchange else ['x']) if el == 'T' else [])
                    ops.append(rng.choice(kk) + str(v))
                    v += 1
                elif r < .85:
                    ops.append(rng.choice(['O', 'O', 'o'] + ['I2']))
                elif r < .93:
                    ops.append('C')
                else:
                    ops.append('c')
            ths.append(' '.join(ops))
        add(rng.choice([0, 1, 1, 1, 2, 3]) if not exchange else 0, rng.choice([0, 1, 2, 4, 5]), el, *ths)
    return [f's{i};{cap},{dr},{el};' + ';'.join(ths) for i, (cap, dr, el, ths) in enumerate(out)]


_hist_cache = {}


def run_channel(c, exchange, aspects, throwing):
    defs = [f'EXCHANGE={int(exchange)}']
    flags = ['-O1', '-D_GLIBCXX_ASSERTIONS']
    exe = build('chan_sched.cpp', defs, san=False, flags=flags, name=f'chan_sched{int(exchange)}')
    scen = chan_scenarios(c, exchange, throwing, 400 if c.thorough else 80)
    mr, rr, pb = (100000, 60000, 3) if c.thorough else (8000, 6000, 2)
    recs, stats = explore(c, exe, scen, f'{c.pid}-sched', mr, rr, pb, timeout=700)
    c.detail['schedules'] = dict(scenarios=len(scen), dfs_runs=sum(s['dfs'] for s in stats), random_runs=sum(s['random'] for s in stats),
                                 deviation_bounds_completed={b: sum(s['bound'] == b for s in stats) for b in sorted({s['bound'] for s in stats})}, overruns=sum(s['overruns'] for s in stats))
    spec = 'ExchangeTrace' if exchange else 'ChannelTrace'
    validate(c, spec, {'Aspects': '{' + ', '.join(f'"{a}"' for a in aspects) + '}'}, recs, f'{c.pid}-{spec}',
             {s.split(';')[0]: s for s in scen})


# ------------------------------------------------------------------ scenarios for the mutexes
def lock_scenarios(c, shared, n):
    rng = random.Random(c.seed * 17 + 3)
    out = []

    def add(head, *ths):
        out.append((head, ths))
    ex3 = ['L,0,0 W,0,5 R,0 D,0', 'L,0,0 R,0 W,0,6 D,0', 'T,0,0']
    add('0,N', *ex3)
    for h in '0123':
        add(h + ',N', 'L,0,0 R,0 D,0', 'L,0,1 R,0 D,0')
        add(h + ',U', 'L,0,0 R,0 D,0', 'L,0,1 R,0 D,0')
    for u in 'NU':
        add('1,' + u, 'L,0,0 W,0,1 D,0', 'L,0,0 W,0,2 D,0', 'L,0,0 R,0 D,0')
        add('1,' + u, 'L,0,0 M,0,1 D,0 W,1,3 D,1', 'T,0,0', 'L,0,0 R,0 D,0')
        add('1,' + u, 'L,0,0 L,1,1 N,0,1 D,0', 'T,0,1', 'L,0,0')
        add('1,' + u, 'L,0,0 L,1,1 S,0,1 R,0 R,1 D,0', 'T,0,1 T,1,0')
        add('1,' + u, 'L,0,0 M,0,1 S,0,1 D,1 W,0,4 D,0', 'T,0,0', 'L,0,0')
        add('1,' + u, 'L,0,0 M,0,1 N,1,0 D,1 R,0', 'T,0,0', 'T,0,0')
        add('1,' + u, 'T,0,0', 'T,0,0', 'L,0,0 D,0 L,0,0 W,0,9 D,0')
        add('1,' + u, 'L,0,0 D,0', 'L,0,0 D,0', 'L,0,0 D,0', 'L,0,0 D,0')
    if shared:
        for u in 'NU':
            add('1,' + u, 'l,3,0 R,3 D,3', 'l,3,0 R,3 D,3', 'L,0,0 W,0,2 D,0')
            add('1,' + u, 'l,3,0 l,4,0 D,3 R,4 D,4', 'T,0,0', 'L,0,0 W,0,3')
            add('1,' + u, 'l,3,0 l,4,0 N,3,4 D,3', 'T,0,0', 'T,0,0')
            add('1,' + u, 'l,3,0 l,4,1 S,3,4 D,3 R,4', 'T,0,0 T,1,1', 't,3,0 t,4,1')
            add('1,' + u, 'l,3,0 M,3,4 D,3 R,4 D,4', 'L,0,0 W,0,7', 't,3,0')
            add('1,' + u, 'L,0,0 D,0', 't,3,0 D,3', 'l,3,0 D,3', 'T,0,0')
            add('1,' + u, 'l,3,0', 'l,3,0', 'l,3,0', 't,3,0')
            add('1,' + u, 'L,0,0 W,0,8 D,0', 'l,3,0 R,3 D,3', 'l,3,0 R,3 D,3')
            add('1,' + u, 'l,3,0 D,3', 'l,3,0 D,3', 'L,0,0 D,0', 'L,0,0 D,0')
    # random well-formed programs (no thread asks for a mutex it holds, except by try_)
    for k in range(n):
        nt = rng.choice([1, 2, 2, 3, 3])
        ths = []
        for t in range(nt):
            slot = {}
            ops = []
            val = 10 * t + 1
            for _ in range(rng.choice([3, 4, 5]) if nt > 1 else 14):
                mine = {x[0] for x in slot.values() if x}
                free = [g for g in range(6 if shared else 3) if g not in slot]
                ch = []
                for g in free:
                    for m in (0, 1):
                        if m not in mine:
                            ch += [('L' if g < 3 else 'l', g, m)] * (2 if m == 0 else 1)
                        # the outcome of a try_ is only known if the thread runs alone
                        if nt == 1 or not mine:
                            ch.append(('T' if g < 3 else 't', g, m))
                for g in slot:
                    ch += [('D', g)] * 2
                    for h in range(6 if shared else 3):
                        if h != g and (h < 3) == (g < 3):
                            if h in slot:
                                ch += [('N', g, h), ('S', g, h)]
                            else:
                                ch.append(('M', g, h))
                    if slot[g]:
                        ch.append(('R', g))
                        if g < 3:
                            ch.append(('W', g, val))
                o = rng.choice(ch)
                if o[0] in 'Ll':
                    slot[o[1]] = (o[2], 'X' if o[1] < 3 else 'S')
                elif o[0] in 'Tt':
                    if nt == 1:
                        conflict = any(x and x[0] == o[2] and (x[1] == 'X' or o[0] == 'T') for x in slot.values())
                        if not conflict:
                            slot[o[1]] = (o[2], 'X' if o[1] < 3 else 'S')
                    else:
                        ops.append(','.join(map(str, o)))
                        break           # a try_ whose outcome is open ends the program
                elif o[0] == 'D':
                    del slot[o[1]]
                elif o[0] in 'MN':
                    slot[o[2]] = slot[o[1]]
                    slot[o[1]] = None
                elif o[0] == 'S':
                    slot[o[1]], slot[o[2]] = slot[o[2]], slot[o[1]]
                elif o[0] == 'W':
                    val += 1
                ops.append(','.join(map(str, o)))
            ths.append(' '.join(ops))
        out.append((f'{rng.randrange(4)},{rng.choice("NU")}', ths))
    return [f's{i};{h};' + ';'.join(t) for i, (h, t) in enumerate(out)]


def run_locks(c, shared):
    exe = build('lock_sched.cpp', [f'SHARED={int(shared)}'], san=False, flags=['-O1', '-D_GLIBCXX_ASSERTIONS'], name=f'lock_sched{int(shared)}')
    scen = lock_scenarios(c, shared, 3000 if c.thorough else 250)
    mr, rr, pb = (60000, 20000, 3) if c.thorough else (5000, 1500, 2)
    recs, stats = explore(c, exe, scen, f'{c.pid}-sched', mr, rr, pb, timeout=700)
    c.detail['schedules'] = dict(scenarios=len(scen), dfs_runs=sum(s['dfs'] for s in stats), random_runs=sum(s['random'] for s in stats),
                                 deviation_bounds_completed={b: sum(s['bound'] == b for s in stats) for b in sorted({s['bound'] for s in stats})})
    validate(c, 'LocksTrace', {}, recs, f'{c.pid}-LocksTrace', {s.split(';')[0]: s for s in scen})


def limit_scenarios(c, n):
    rng = random.Random(c.seed * 13 + 1)
    out = [('10', ['a1,0,6 d,0', 'a1,0,6 d,0']), ('10', ['a1,0,10', 'a1,0,10', 'a1,0,1']), ('8', ['a4,0,4 d,0', 'a4,0,8 d,0', 'a1,0,1']),
           ('10', ['f1,0,10', 'a1,0,10', 'a1,0,1']), ('10', ['f1,0,4 f1,0,4', 'a1,0,8 d,0', 'a4,0,4']), ('0', ['a1,0,0', 'a1,0,1']),
           ('9', ['a1,0,3 a1,1,3 d,0 d,1', 'a1,0,3 a1,1,3', 'a1,0,9']), ('1', ['a1,0,1 d,0 a1,0,1 d,0', 'a1,0,1 d,0'])]
    for k in range(n):
        lim = rng.choice([1, 4, 5, 8, 10, 12])
        ths = []
        for t in range(rng.choice([2, 2, 3])):
            ops, live = [], []
            for _ in range(rng.choice([2, 3, 4])):
                if live and rng.random() < .4:
                    ops.append(f'd,{live.pop(rng.randrange(len(live)))}')
                else:
                    g = next(g for g in range(5) if g not in live)
                    if g >= 4:
                        break
                    sz = rng.choice([1, 2, 4, lim // 2, lim, max(0, lim - 1), lim + 1])
                    if rng.random() < .25:
                        ops.append(f'f1,{g},{sz}')
                    else:
                        k4 = sz % 4 == 0 and rng.random() < .5
                        ops.append(f'a{4 if k4 else 1},{g},{sz}')
                        live.append(g)
            ths.append(' '.join(ops))
        out.append((str(lim), ths))
    return [f's{i};{h};' + ';'.join(t) for i, (h, t) in enumerate(out)]


def run_limit(c):
    exe = build('limit_sched.cpp', [], san=False, flags=['-O1', '-D_GLIBCXX_ASSERTIONS'])
    scen = limit_scenarios(c, 1000 if c.thorough else 90)
    mr, rr, pb = (60000, 20000, 3) if c.thorough else (5000, 2000, 2)
    recs, stats = explore(c, exe, scen, f'{c.pid}-sched', mr, rr, pb, timeout=700)
    c.detail['schedules'] = dict(scenarios=len(scen), dfs_runs=sum(s['dfs'] for s in stats), random_runs=sum(s['random'] for s in stats),
                                 deviation_bounds_completed={b: sum(s['bound'] == b for s in stats) for b in sorted({s['bound'] for s in stats})})
    validate(c, 'LimitTrace', {}, recs, f'{c.pid}-LimitTrace', {s.split(';')[0]: s for s in scen})
