"""One function per property: which specifications are explored and how they are bound to the code."""
import os, random
from vlib import *
import conc

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


def q(x):
    return f'"{x}"'


@check('C12')
def c12(c, known):
    pairs = [('full', 'full'), ('triv', 'full'), ('noex', 'nmove'), ('atriv', 'atriv'), ('cctor', 'triv'), ('conly', 'full'), ('nmove', 'monly'), ('triv', 'triv')]
    if c.thorough:
        ks = ['triv', 'full', 'noex', 'atriv', 'cctor', 'conly', 'nmove', 'monly']
        pairs = [(a, b) for a in ks for b in ks]
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(c.mbt, 'Variant2', 'variant2.cpp', consts={'KA': q(a), 'KB': q(b)}, name=f'Variant2-{a}-{b}',
                        defs=[f'KA={a}', f'KB={b}'], invariants=['TypeOK', 'ValuelessOnlyByException', 'MarkedOnlyIfMoves'],
                        walks=400 if c.thorough else 40, workers=2) for a, b in pairs]
        for f in fs:
            f.result()


def channel_seq(c, exchange):
    parallel([lambda m=m: c.mbt('ChannelSeq', 'chan_seq.cpp', consts=dict(Exchange=b(exchange), MoveOnly=b(m), MaxQ=4 if c.thorough else 3, NI=2), name=f'ChannelSeq-{int(exchange)}{m}',
                                defs=[f'EXCHANGE={int(exchange)}', f'MOVEONLY={m}'], invariants=['TypeOK'], max_len=300, walks=1000 if c.thorough else 50, walk_len=200) for m in (0, 1)]
             + [lambda m=m: c.mbt('ChannelPair', 'chan_pair.cpp', consts=dict(Exchange=b(exchange), MoveOnly=b(m), MaxQ=2 if c.thorough else 1), name=f'ChannelPair-{int(exchange)}{m}',
                                  defs=[f'EXCHANGE={int(exchange)}', f'MOVEONLY={m}'], invariants=['Bounded'], max_len=300, walks=1000 if c.thorough else 20, walk_len=200) for m in (0, 1)], 4)


@check('C01')
def c01(c, known):
    conc.run_channel(c, False, ['deliver'], True)
    channel_seq(c, False)


@check('C02')
def c02(c, known):
    conc.run_channel(c, False, ['cap'], True)
    c.mbt('ChannelLevel', 'channel_level.cpp', consts=dict(Caps='{"1", "3", "255", "256", "257", "32768", "65535", "65536", "65537", "70000", "4294967295", "4294967296", "4294967297", "9223372036854775808", "18446744073709551615"}',
                                                           Levels='{0, 1, 2, 254, 255, 256, 257, 32768, 65536, 65537}' if c.thorough else '{0, 1, 256, 65536}'), invariants=['Bounded'], max_len=30, walks=100 if c.thorough else 10, walk_len=30, san=False)


@check('C03')
def c03(c, known):
    conc.run_channel(c, False, ['close'], True)


@check('C04')
def c04(c, known):
    conc.run_channel(c, False, ['stuck'], True)


@check('C05')
def c05(c, known):
    conc.run_channel(c, True, ['deliver'], True)
    channel_seq(c, True)


@check('C06')
def c06(c, known):
    conc.run_channel(c, True, ['close'], True)


@check('C07')
def c07(c, known):
    conc.run_locks(c, False)


@check('C08')
def c08(c, known):
    conc.run_locks(c, True)


@check('C09')
def c09(c, known):
    conc.run_limit(c)
    lims = '{5, 8}' if c.thorough else '{5}'
    hs = '{1, 2, 3}' if c.thorough else '{1, 2}'
    g = mbt_graph('LimitSeq', 'C09-LimitSeq', dict(Limits=lims, Hs=hs, Gs='{1, 2}' if c.thorough else '{1, 2, 3}', Sizes='{0, 1, 2, 4, 5, 6, 8, 9}' if c.thorough else '{0, 1, 4, 5, 6}', Units=b(False)), ['WithinLimit'], workers=8)
    # the same at another order of magnitude
    big = mbt_graph('LimitSeq', 'C09-LimitSeq-big', dict(Limits='{5, 8}', Hs='{1, 2}', Gs='{1, 2}', Sizes='{0, 1, 2, 4, 5, 6, 8, 9}' if c.thorough else '{0, 1, 2, 5, 9}', Units=b(True)), ['WithinLimit'], workers=8)
    for sync in ('sync', 'unsync'):
        c.mbt('LimitSeq', 'limit_seq.cpp', graph=g, name=f'LimitSeq-{sync}', defs=[f'SYNC={sync}', 'FIRST=5'], walks=1000 if c.thorough else 100)
        for unit in (858993460, 1 << 33, 1 << 57):
            c.mbt('LimitSeq', 'limit_seq.cpp', graph=big, name=f'LimitSeq-{sync}-{unit}', defs=[f'SYNC={sync}', 'FIRST=5', f'UNIT={unit}ull'], san=False)
    for k, sync in zip('PQRS', ('sync', 'unsync', 'sync', 'unsync')):
        c.mbt('LimitCont', 'limit_cont.cpp', consts=dict(Kind=q(k)), name=f'LimitCont-{k}', defs=[f'KIND={k}', f'SYNC={sync}'], invariants=['TypeOK'], walks=100)
    throwing(c)()


def parallel(jobs, n=4):
    """jobs: callables; the first exception wins"""
    with cf.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(j) for j in jobs]
        for f in fs:
            f.result()


def graphs(*specs, workers=4, n=6):
    """several specifications explored in parallel: tuples (spec, name, consts, invariants)"""
    with cf.ThreadPoolExecutor(min(n, len(specs))) as ex:
        return [f.result() for f in [ex.submit(mbt_graph, *sp, workers=workers) for sp in specs]]


@check('C15')
def c15(c, known):
    inv = ['TypeOK', 'OrderOK']
    g, gl, gc, gb = graphs(('StaticString', 'C15-short', {'Short': 3 if c.thorough else 2, 'Long': '{}', 'CI': 'FALSE'}, inv),
                       ('StaticString', 'C15-long', {'Short': 0, 'Long': '{7, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257}' if c.thorough else '{8, 16, 256}', 'CI': 'FALSE'}, inv),
                       ('StaticString', 'C15-ci', {'Short': 2, 'Long': '{}', 'CI': 'TRUE'}, inv),
                       ('StaticString', 'C15-big', {'Short': 0, 'Long': '{255, 256}', 'CI': 'FALSE'}, inv))
    jobs = []
    for t in ('char', 'wchar_t', 'char8_t', 'char16_t', 'char32_t'):
        for n, gr in (('short', g), ('long', gl)):
            jobs.append(lambda t=t, n=n, gr=gr: c.mbt('StaticString', 'static_string.cpp', graph=gr, name=f'StaticString-{n}-{t}', defs=[f'CHAR={t}'], max_len=200))
    for t in ('char', 'char16_t', 'wchar_t') if c.thorough else ('char', 'wchar_t'): # 514, 65535 and 65792 characters
        jobs.append(lambda t=t: c.mbt('StaticString', 'static_string.cpp', graph=gb, name=f'StaticString-big-{t}', defs=[f'CHAR={t}', 'SCALE=257'], max_len=100, san=False, flags=['-O1']))
    jobs.append(lambda: c.mbt('StaticString', 'static_string.cpp', graph=gc, name='StaticString-ci', defs=['CHAR=char', 'CI'], max_len=200))
    parallel(jobs, 6)


def throwing(c):
    """exceptions of user code that runs during the operations of the property"""
    return lambda: c.pure('Throwing', 'throwing.cpp', consts=dict(Prop=q(c.pid)), name='Throwing', defs=[f'PROP={int(c.pid[1:])}'], invariants=['OneEnd'])


def b(x):
    return 'TRUE' if x else 'FALSE'


@check('C16')
def c16(c, known):
    combos = [(0, 0, 0, 0, ''), (1, 1, 1, 0, ''), (1, 0, 0, 0, ''), (0, 1, 1, 0, ''), (0, 1, 0, 0, ''), (0, 0, 0, 1, ''), (0, 0, 1, 0, 'FANCY'), (1, 1, 1, 0, 'FANCY')]
    if c.thorough:
        combos = [(x, y, z, e, f) for x in (0, 1) for y in (0, 1) for z in (0, 1) for e in (0, 1) for f in ('', 'FANCY')]
    jobs = []
    for i, (x, y, z, e, f) in enumerate(combos):
        ch = ('char', 'char16_t', 'char32_t')[i % 3]
        jobs.append(lambda x=x, y=y, z=z, e=e, f=f, ch=ch: c.mbt(
            'StaticStringAlloc', 'static_string_alloc.cpp', consts=dict(POCCA=b(x), POCMA=b(y), POCS=b(z), AE=b(e), Lens='{0, 1, 3, 17}' if c.thorough else '{0, 1, 3}', As='{1, 2, 3}' if c.thorough else '{1, 2}'),
            name=f'StaticStringAlloc-{x}{y}{z}{e}{f}-{ch}', defs=[f'POCCA={x}', f'POCMA={y}', f'POCS={z}', f'AE={e}', f'CHAR={ch}'] + ([f] if f else []),
            invariants=['TypeOK', 'KnownHasAllocator'], walks=200 if c.thorough else 30, workers=2))
    parallel(jobs, 7)


@check('C17')
def c17(c, known):
    jobs = []
    modes = ['static', 'limited', 'dynamic']
    conf = [(m, n, 'int', 0) for m in (0, 1, 2) for n in ((2,) if not c.thorough else (0, 1, 2, 3, 5))]
    conf += [(m, 2, 'double', 1) for m in (0, 1, 2)] + [(m, 3 if c.thorough else 2, 'Obj', 0) for m in (0, 1, 2)] + [(0, 0, 'int', 0), (1, 0, 'Obj', 0), (0, 5, 'int', 0), (1, 4 if c.thorough else 3, 'int', 0)]
    gs = {}
    for m, n, e, nan in dict.fromkeys(conf):
        gs.setdefault((m, n, nan), ('FlexArray', f'C17-g-{m}-{n}-{nan}', dict(Mode=q(modes[m]), N=n, Nan=b(nan)), ['SizeOK', 'OrderOK']))
    gr = dict(zip(gs, graphs(*gs.values())))
    for m, n, e, nan in dict.fromkeys(conf):
        jobs.append(lambda m=m, n=n, e=e, nan=nan: c.mbt('FlexArray', 'flex_array.cpp', graph=gr[m, n, nan], name=f'FlexArray-{modes[m]}-{n}-{e}', defs=[f'MODE={m}', f'NN={n}', f'ELEM={e}'], max_len=200))
    # sizes of every magnitude
    big = [(m, n) for m in (0, 1) for n in (255, 256, 65536)] + [(2, 70000)]
    for m, n in big:
        sizes = [0, 65535, 65536, 65537] if m == 2 else sorted({0, n - 1, n, n + 1, 70000 if m == 0 else n})
        if c.thorough and m:
            sizes += [1, 257]
        jobs.append(lambda m=m, n=n, sizes=sizes: c.mbt('FlexBig', 'flex_big.cpp', consts=dict(Mode=q(modes[m]), N=n, Sizes='{' + ', '.join(map(str, sizes)) + '}', Fine=b(c.thorough)), name=f'FlexBig-{modes[m]}-{n}',
                                                        defs=[f'MODE={m}', f'NN={n}'], invariants=['SizeOK', 'Dual'], max_len=100, workers=2, san=n < 65535, flags=['-O1']))
    parallel(jobs, 8)
    throwing(c)()


def probe(c, known, key, src, what, defs=()):
    """a listed finding: report it as known while it is there, as a violation if it is not listed"""
    exe = build(src, defs=defs, san=False)
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    if r.returncode == 0:
        return
    if key in known:
        print(f'KNOWN-FINDING: property={c.pid} {known[key]}')
    else:
        raise Violation(what)


@check('C14')
def c14(c, known):
    jobs = [lambda k=k: c.mbt('InplacePoly', 'inplace_polymorphic.cpp', consts=dict(Kind=q(k)), name=f'InplacePoly-{k}', defs=[f'KIND={k}'],
                              invariants=['TypeOK', 'NeverValuelessWithoutThrow'], walks=1000 if c.thorough else 60, workers=2)
            for k in ('full', 'noex', 'triv', 'conly', 'monly', 'mixed')]
    jobs.append(lambda: probe(c, known, 'multiple-inheritance', 'inplace_mi.cpp', 'get() of an object whose Base is not its first base class does not refer to the Base subobject'))
    parallel(jobs, 7)


@check('C13')
def c13(c, known):
    pairs = [('Int', 'Str'), ('Dbl', 'Int'), ('Int', 'Dbl'), ('Str', 'Dbl'), ('Weak', 'Int'), ('EqOnly', 'Int'), ('Str', 'Weak')]
    if c.thorough:
        ts = ['Int', 'Dbl', 'Str', 'Weak', 'EqOnly']
        pairs = [(x, y) for x in ts for y in ts if x != y]
    parallel([lambda x=x, y=y: c.mbt('Variant2Obs', 'variant2_obs.cpp', consts=dict(TA=q(x), TB=q(y)), name=f'Variant2Obs-{x}-{y}', defs=[f'TA={x}', f'TB={y}'],
                                     invariants=['TypeOK', 'OrderOK'], max_len=200, workers=2) for x, y in pairs], 8)
    throwing(c)()


@check('C10')
def c10(c, known):
    bs = [((8, 16, 64), (0, 8, 9, 17, 64, 65, 200) if c.thorough else (0, 8, 9, 64, 65)), ((16,), (0, 1, 16, 17)), ((8, 8, 24, 32), (8, 24, 25, 32, 33))]
    if c.thorough:
        bs += [((1, 2, 4, 128), (0, 1, 2, 3, 4, 5, 128, 129)), ((56,), (1, 55, 56, 57, 4096))]
    jobs = []
    for bu, sz in bs:
        nm = '_'.join(map(str, bu))
        jobs.append(lambda bu=bu, sz=sz, nm=nm: c.mbt('Pool', 'pool.cpp', consts=dict(Buckets='{' + ', '.join(map(str, sorted(set(bu)))) + '}', Sizes='{' + ', '.join(map(str, sz)) + '}', NH=3 if c.thorough else 2, NB=2),
                                                      name='Pool-' + nm, defs=['BUCKETS=' + ','.join(map(str, bu)), f'NH={3 if c.thorough else 2}', 'NB=2'], invariants=['TypeOK', 'NoOrphans'], walks=300 if c.thorough else 30, workers=3))
    jobs.append(lambda: probe(c, known, 'misaligned', 'pool_align.cpp', 'pool_allocator returns misaligned storage'))
    parallel(jobs, 6)


@check('C11')
def c11(c, known):
    conf = [('P', 0), ('Q', 0), ('PQ', 0), ('RQ', 0), ('RS', 0), ('PQR', 0), ('Q', 1), ('R', 1), ('PQ', 2)]
    if c.thorough:
        conf = [(k, 0) for k in ('P', 'Q', 'R', 'S', 'PQ', 'RQ', 'SP', 'RS', 'PQR', 'SRQP')] + [(k, 1) for k in 'PQRS'] + [(k, 2) for k in ('PQ', 'RS', 'PQR')]
    parallel([lambda k=k, o=o: c.mbt('PolyAlloc', 'poly_alloc.cpp', consts=dict(Cfg=q(k), Sizes='{0, 1, 5}' if c.thorough else '{0, 3}', NB=2 if c.thorough else 1), name=f'PolyAlloc-{k}-{o}',
                                     defs=['ALTS=' + ','.join(k), f'OFFSET={o}'], invariants=['TypeOK', 'EqIsEquivalence'], walks=300 if c.thorough else 40, workers=2) for k, o in conf], 8)
    throwing(c)()


@check('C18')
def c18(c, known):
    for d, g in ((4, 2), (5, 1)) + (((4, 3),) if c.thorough else ()):
        c.mbt('Defer', 'defer.cpp', consts=dict(MaxDepth=d, MaxGuards=g, AllHows=2), name=f'Defer-{d}-{g}', invariants=['TypeOK', 'PolicyOK', 'RunningOnTop'],
              walks=2000 if c.thorough else 200, walk_len=80, workers=8)
    c.mbt('DeferHeld', 'defer.cpp', consts=dict(MaxU=3 if c.thorough else 2, Slots=3 if c.thorough else 2), invariants=['TypeOK', 'Exclusive'], max_len=300)


@check('C19')
def c19(c, known):
    jobs = []
    for cp in (1, 0):
        for nth in (1, 0):
            for n, ni, adv, wr in ((5 if c.thorough else 4, 1, 1, 1), (4 if c.thorough else 3, 2, 0, 0)) + (((2, 2, 1, 1),) if c.thorough else ()):
                jobs.append(lambda cp=cp, nth=nth, n=n, ni=ni, adv=adv, wr=wr: c.mbt(
                    'NextRange', 'next_range.cpp', consts=dict(N=n, NI=ni, Copy=b(cp), Nth=b(nth), Adv=b(adv), Write=b(wr), MaxPlus=n + 1 if ni == 1 else 3),
                    name=f'NextRange-{cp}{nth}-{n}-{ni}', defs=[f'COPY={cp}', f'NTH={nth}', f'NI={ni}'], invariants=['TypeOK', 'PeekIsNext'], walks=300 if c.thorough else 30, max_len=200, workers=2))
    g, = graphs(('NextFar', 'C19-far', dict(U=3), []))
    for k in (256, 65536, 2**31, 2**32, 2**61 + 2**33) if not c.thorough else (256, 300, 32768, 65536, 2**31 - 1, 2**31, 2**32, 2**33 + 7, 2**61 + 2**33):
        jobs.append(lambda k=k: c.pure('NextFar', 'next_far.cpp', graph=g, name=f'NextFar-{k}', defs=[f'SCALE={k}u']))
    parallel(jobs, 6)
    throwing(c)()


@check('C20')
def c20(c, known):
    S, U = ['int8_t', 'int16_t', 'int32_t', 'int64_t'], ['uint8_t', 'uint16_t', 'uint32_t', 'uint64_t']
    cs = lambda signed, kind: dict(Signed=b(signed), StepKind=q(kind), Rich=b(c.thorough))
    conf = {  # graph -> (constants, pairs of types)
        'ss': (cs(1, 's'), [(t, t) for t in S]),
        'uu': (cs(0, 'u'), [(t, t) for t in U]),
        'us': (cs(0, 's'), list(zip(U, S))),
        'su': (cs(1, 'u'), list(zip(S, U))),
        'uw': (cs(0, 'w'), [('uint8_t', 'int'), ('uint16_t', 'int64_t'), ('uint32_t', 'int64_t')]),
        'sw': (cs(1, 'w'), [('int8_t', 'int'), ('int16_t', 'int64_t'), ('int32_t', 'int64_t')]),
        'sn': (cs(1, 'n'), [('int64_t', 'int'), ('int32_t', 'int8_t'), ('int16_t', 'int8_t')]),
        'un': (cs(0, 'n'), [('uint64_t', 'int'), ('uint32_t', 'int8_t'), ('uint64_t', 'int8_t')]),
    }
    gs = dict(zip(conf, graphs(*[('RangeGen', 'C20-' + k, v[0], ['NeverPasses']) for k, v in conf.items()], workers=2)))
    jobs = []
    for k, (cs, types) in conf.items():
        for t, st in types if c.thorough else (types if k in ('ss', 'us') else types[-2:]):
            jobs.append(lambda k=k, t=t, st=st: c.pure('RangeGen', 'range_gen.cpp', graph=gs[k], name=f'RangeGen-{k}-{t}-{st}', defs=[f'TT={t}', f'SS={st}']))
    rc = {same: mbt_graph('RangeClass', f'C20-class-{same}', dict(Max=6 if c.thorough else 3, Same=b(same)), ['Count']) for same in (0, 1)}
    jobs += [lambda k=k: c.pure('RangeClass', 'range_class.cpp', graph=rc[k < 2], name=f'RangeClass-{k}', defs=[f'KIND={k}']) for k in range(5)]
    jobs.append(throwing(c))
    parallel(jobs, 8)


@check('C21')
def c21(c, known):
    l, l2 = (6, 4) if c.thorough else (4, 3)
    g, gn = graphs(('RangeAlgo', 'C21-plain', dict(L=l, L2=l2, Nan='FALSE'), ['Consistent']), ('RangeAlgo', 'C21-nan', dict(L=l, L2=l2, Nan='TRUE'), ['Consistent']))
    parallel([lambda e=e: c.pure('RangeAlgo', 'range_algo.cpp', graph=gn if e == 'double' else g, name='RangeAlgo-' + e.split(':')[-1], defs=['EL=' + e])
              for e in ('int', 'double', 'std::string', 'LessOnly', 'HashOnly', 'Clash')], 6)
    g, = graphs(('RangeLong', 'C21-long', dict(Lens='{15, 16, 17, 64, 65, 300, 1000}' if c.thorough else '{15, 17, 64, 300}'), ['Consistent']), workers=8)
    parallel([lambda e=e: c.pure('RangeLong', 'range_long.cpp', graph=g, name='RangeLong-' + e.split(':')[-1], defs=['EL=' + e]) for e in ('int', 'std::string', 'LessOnly', 'HashOnly')], 4)
    throwing(c)()


@check('C22')
def c22(c, known):
    c.pure('OptMinMax', 'opt_minmax.cpp', consts=dict(L=6 if c.thorough else 4), invariants=['Dual'], workers=8)
    throwing(c)()


@check('C23')
def c23(c, known):
    gs = {}
    for w in (8, 16, 32, 64):
        for sg in (0, 1):
            for es in (0, 1):
                gs[w, sg, es] = ('Ipow', f'C23-{w}{sg}{es}', dict(W=w, Signed=b(sg), ExpSigned=b(es), All=b(w == 8), EBits=0), ['RootOK'])
                for ew in (16, 32, 64) if c.thorough else (64,) if w in (8, 64) else (32,):
                    gs[w, sg, es, ew] = ('Ipow', f'C23-{w}{sg}{es}-far{ew}', dict(W=w, Signed=b(sg), ExpSigned=b(es), All='FALSE', EBits=ew - es), [])
    gr = dict(zip(gs, graphs(*gs.values(), workers=2, n=8)))
    jobs = []
    for (w, sg, es, *fw), g in gr.items():
        t = f'{"" if sg else "u"}int{w}_t'
        if fw:
            jobs.append(lambda t=t, e=f'{"" if es else "u"}int{fw[0]}_t', g=g: c.pure('Ipow', 'ipow.cpp', graph=g, name=f'Ipow-far-{t}-{e}', defs=[f'TT={t}', f'EE={e}']))
            continue
        for ew in ((8, 16, 32, 64) if c.thorough else (w, 8 if w == 64 else 64)):
            e = f'{"" if es else "u"}int{ew}_t'
            jobs.append(lambda t=t, e=e, g=g: c.pure('Ipow', 'ipow.cpp', graph=g, name=f'Ipow-{t}-{e}', defs=[f'TT={t}', f'EE={e}']))
    parallel(jobs, 8)


@check('C24')
def c24(c, known):
    conf = {1: [0, 1, 7], 2: [0, 2, 3], 3: [0, 1, 15], 4: [0, 1], 5: [0, 255, 4095], 6: [0], 7: [0, 1, 2147483647]}
    if c.thorough:
        conf = {1: range(8), 2: range(4), 3: [0, 1, 2, 4, 8, 15], 4: [0, 1], 5: [0, 1, 256, 2048, 4095], 6: [0], 7: [0, 1, 65536, 2147483647]}
    parallel([lambda k=k, t=t: c.mbt('TagPair', 'tag_pair.cpp', consts=dict(Tags='{' + ', '.join(map(str, t)) + '}', Hows='{"ctor", "over", "tagged", "derived"}'),
                                     name=f'TagPair-{k}', defs=[f'CFG={k}'], invariants=['TypeOK'], max_len=400, workers=2) for k, t in conf.items()]
             + [lambda: c.pure('TagAccept', 'tag_accept.cpp')], 8)


@check('C25')
def c25(c, known):
    keys = [(sg, e) for sg in (0, 1) for e in (0, 1)]
    gr = dict(zip(keys, graphs(*[('SwitchFor', f'C25-{sg}{e}', dict(Signed=b(sg), Is8=b(e)), ['Covered']) for sg, e in keys])))
    gof = lambda t: gr[int(not t.startswith(('u', 'char16', 'char32'))), int('8' in t or t in ('char', 'signed char'))]
    ts = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int', 'unsigned', 'int64_t', 'uint64_t'] + (['char16_t', 'signed char', 'long long', 'unsigned long long', 'wchar_t', 'char32_t', 'char'] if c.thorough else [])
    parallel([lambda t=t: c.pure('SwitchFor', 'switch_for.cpp', graph=gof(t), name='SwitchFor-' + t.replace(' ', '_'), defs=['TT=' + t]) for t in ts], 8)
    throwing(c)()


@check('C26')
def c26(c, known):
    jobs = []
    for t in ['int8_t', 'uint8_t', 'int', 'uint64_t', 'int64_t'] + (['int16_t', 'uint16_t', 'unsigned', 'char16_t', 'long long'] if c.thorough else []):
        sg, e8 = not t.startswith(('u', 'char16')), t in ('int8_t', 'uint8_t')
        jobs.append(lambda t=t, sg=sg, e8=e8: c.pure('IntSeq', 'int_seq.cpp', consts=dict(Signed=b(sg), Is8=b(e8)), name='IntSeq-' + t, defs=['TT=' + t]))
    conf = [('int', 2, 5), ('int', 1, '-2'), ('int8_t', '-128', '-126'), ('uint64_t', 'UINT64_MAX', 'UINT64_MAX-3'), ('size_t', 7, 8), ('int', '-1', '-4'), ('int', '-3', '-1'), ('unsigned', 5, 2),
            ('char', "'d'", "'b'"), ('bool', 0, 1), ('bool', 1, 0)]
    if c.thorough:
        conf += [('uint16_t', 1, 4), ('wchar_t', 3, 1), ('char8_t', 0, 2), ('int8_t', 127, 124), ('int', 0, 4), ('int', 3, '-1'), ('int64_t', 'INT64_MIN', 'INT64_MIN+3'), ('uint8_t', 255, 252), ('char', "'a'", "'d'"), ('int', '-1', 2)]
    for t, f, l in conf:
        n = abs(eval(re.sub("'(.)'", lambda m: str(ord(m[1])), f'{f}-({l})').replace('UINT64_MAX', '0').replace('INT64_MIN', '0')))
        for sub in (1, 0):
            jobs.append(lambda t=t, f=f, l=l, n=n, sub=sub: c.mbt('IntTuple', 'int_tuple.cpp', consts=dict(N=n, Sub=b(sub)), name=f'IntTuple-{t}-{f}-{l}-{sub}'.replace("'", ''),
                                                         defs=['TT=' + t, f'FIRST={f}', f'LAST={l}', f'SUB={sub}'], invariants=['TypeOK'], max_len=300, workers=2))
    vconf = [('int', 2, 5, 3), ('int', 1, '-1', 2), ('int8_t', 127, 125, 2), ('uint64_t', 'UINT64_MAX-2', 'UINT64_MAX', 2), ('size_t', 7, 8, 1), ('int', '-1', '-4', 3), ('int', '-3', '-1', 2)]
    for k in ('noex', 'copy', 'full', 'plain'):
        more = [('unsigned', 5, 2, 3), ('uint16_t', 9, 7, 2), ('char', "'d'", "'b'", 2), ('size_t', 3, 1, 2), ('bool', 0, 1, 1), ('bool', 1, 0, 1), ('char8_t', 1, 3, 2)]
        for t, f, l, n in vconf + (more if c.thorough or k == 'noex' else []) + ([('int', 0, 3, 3), ('int64_t', 'INT64_MIN+2', 'INT64_MIN', 2), ('uint8_t', 0, 2, 2), ('int', 2, '-2', 4)] if c.thorough else []):
            if c.thorough or (k == 'full' and t != 'int8_t') or (n != 3 and l != '-1') or (f == '-1' and k == 'copy'):
                jobs.append(lambda k=k, t=t, f=f, l=l, n=n: c.mbt('IntVariant', 'int_variant.cpp', consts=dict(N=n, Kind=q(k)), name=f'IntVariant-{t}-{f}-{l}-{k}'.replace("'", ''),
                                                              defs=['TT=' + t, f'FIRST={f}', f'LAST={l}', 'KIND=' + ('noex' if k == 'plain' else k)] + ['PLAIN'] * (k == 'plain'), invariants=['TypeOK'], walks=300 if c.thorough else 30, workers=2))
    for f, l in (('10', '50'), ('-3', '-70')):
        n = abs(int(f) - int(l))
        for w, nm in ((2, 'tuple'), (3, 'variant')):
            jobs.append(lambda f=f, l=l, n=n, w=w, nm=nm: c.pure('Long', 'long.cpp', consts=dict(What=q(nm), N=n), name=f'Long-{nm}-{n}', defs=[f'WHAT={w}', f'FIRST={f}', f'LAST={l}'], san=False))
    jobs.append(lambda: probe(c, known, 'subtuple-mixed-alignment', 'subtuple_mixed.cpp', 'subtuple of a tuple with elements of different alignment does not refer to the elements of the tuple'))
    parallel(jobs, 8)
    throwing(c)()


@check('C27')
def c27(c, known):
    cfgs = ['i', 's', 'm', 't', 'ci', 'li', 'ii', 'sd', 'cil', 'lic', 'iei', 'eci', 'sms', 'dtd', 'sss', 'cclc'] + (['iiii', 'sitc'] if c.thorough else [])
    if not c.thorough:
        cfgs = ['s', 'm', 't', 'ci', 'li', 'sd', 'sss', 'cil', 'iei', 'eci', 'sms', 'dtd', 'cclc']
    jobs = [lambda k=k: c.mbt('SLTuple', 'sl_tuple.cpp', consts=dict(Cfg=q(k)), name='SLTuple-' + k, defs=[f'CFG="{k}"'] + (['COPY'] if 'm' not in k else []) + (['UNIFORM'] if not set(k) & set('et') else []),
                              invariants=['TypeOK', 'OrderOK'], max_len=300, workers=2) for k in cfgs]
    jobs += [lambda n=n: c.pure('Long', 'long.cpp', consts=dict(What=q('tuple'), N=n), name=f'Long-{n}', defs=['WHAT=1', 'FIRST=0', f'LAST={n}'], san=False) for n in (17, 70)]
    jobs.append(lambda: probe(c, known, 'subtuple-mixed-alignment', 'subtuple_mixed.cpp', 'subtuple of a tuple with elements of different alignment does not refer to the elements of the tuple'))
    parallel(jobs, 8)
    throwing(c)()


@check('C28')
def c28(c, known):
    types = dict(int=1, double=2, string=3, char=4, bool=5, inner=6, custom=7)
    gs = {(t, w): ('FmtJoin', f'C28-{t}-{w}', dict(Type=q(t), L=4 if c.thorough else 3, Wide=b(w)), []) for t in types for w in (0, 1) if c.thorough or not w or t in ('int', 'string', 'custom')}
    gr = dict(zip(gs, graphs(*gs.values(), workers=2, n=8)))
    parallel([lambda t=t, w=w, g=g: c.pure('FmtJoin', 'fmt_join.cpp', graph=g, name=f'FmtJoin-{t}-{w}', defs=[f'ET={types[t]}', f'WIDE={w}']) for (t, w), g in gr.items()], 8)
    throwing(c)()


@check('C30')
def c30(c, known):
    sigs = [(6, 15), (11, 64), (2, 10), (8, 14), (4, 34)] if c.thorough else [(6, 15), (11, 64), (2, 10)]
    streams = [('file', 'cout', 0), ('stdout', 'stderr', 0), ('cerr', 'clog', 0), ('file', 'cout', 1), ('stdout', 'cerr', 1), ('clog', 'file', 1), ('wcout', 'wclog', 1)]
    jobs = [lambda a=a, z=z: c.mbt('Sandbox', 'sandbox.cpp', consts=dict(A=a, B=z, X=q('-'), Y=q('-'), MaxLog=0), name=f'Sandbox-{a}-{z}', invariants=['TypeOK'], max_len=100, workers=2, san=False) for a, z in sigs]
    jobs += [lambda x=x, y=y, u=u: c.mbt('Sandbox', 'sandbox.cpp', consts=dict(A=6, B=15, X=q(x), Y=q(y), MaxLog=3 if c.thorough else 2), name=f'Sandbox-{x}-{y}-{u}', args=['unsync'] if u else [],
                                         invariants=['TypeOK'], max_len=60, walks=200 if c.thorough else 20, workers=2, san=False) for x, y, u in streams]
    jobs.append(lambda: probe(c, known, 'sigchld-ignored', 'sandbox_sigchld.cpp', 'the result of a sandbox is lost in a process that ignores SIGCHLD'))
    parallel(jobs, 4)


@check('C32')
def c32(c, known):
    g = mbt_graph('OStream', 'C32', dict(MaxCap=4, Deep=b(c.thorough)), ['TypeOK'])
    parallel([lambda w=w, k=k: c.mbt('OStream', 'ostream.cpp', graph=g, name=f'OStream-{w}{k}', defs=[f'WIDE={w}', f'SEEK={k}'], max_len=100, walks=400 if c.thorough else 50) for w, k in ((0, 0), (1, 0), (0, 1), (1, 1))], 4)


@check('C29')
def c29(c, known):
    n = 4 if c.thorough else 3
    g = mbt_graph('TypeList', 'C29-list', dict(L=n, Concats=2))
    jobs = [lambda u=u: c.pure('TypeList', 'type_list.cpp', graph=g, name=f'TypeList-{u}', defs=[f'LEN={n}', f'UNIVERSE={u}'], san=False) for u in ((1, 2, 3) if c.thorough else (1, 3))]
    jobs.append(lambda: c.pure('Traits', 'traits.cpp', consts=dict(MaxCases=3), name='Traits'))
    parallel(jobs, 4)
    throwing(c)()


@check('C31')
def c31(c, known):
    mb, mr = (3, 3) if c.thorough else (2, 2)
    c.mbt('Forward', 'forward.cpp', consts=dict(MaxBound=mb, MaxRest=mr), defs=[f'MAXB={mb}', f'MAXR={mr}'], max_len=300, san=c.thorough)
    throwing(c)()


@check('C33')
def c33(c, known):
    c.pure('Literals', 'literals.cpp')
