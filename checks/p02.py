"""Abstract encode/decode round trips: arrays whose elements are symbols (known to be zero or non-zero) are encoded and decoded again by
the real code over an abstract buffer, for every placement of zeros up to a length that contains every transition between runs. Values
must come back in place (into an array with stale content), the decoder must stop where the encoder stopped, and neither may pass
the announced length; that length is compared with the worst case on top."""
from common import *
import itertools
MIN_OBLIGATIONS = 300
def assume(I, c):
    I.st.pc = I.st.pc + (c,) if isinstance(I.st.pc, tuple) else I.st.pc | {c}
def one(ctx, P, f, d, nc, sh, pat, kind):
    """pat: one string of '0'/'x' per element"""
    n = len(pat); I = Interp(P)
    for i, x in enumerate(sh): I.write(LV(T('arg', 0), ('m_data', num(i))), num(x), note=False)
    I.write(LV(T('arg', 2), ('#size',)), ZERO, note=False)
    want = []
    for k, p in enumerate(''.join(pat)):
        v = ZERO if p == '0' else T('sym', 'element', num(k))
        want.append(v); I.write(LV(T('arg', 1), (num(k),)), v, note=False)
        if v is not ZERO: assume(I, notb(eqt(v, ZERO)))
    try: I = ctx.run(f, I=I)
    except RecursionError: ctx.unk('round trip', 'too deep'); return
    what = '%s, shape %s, contents %s' % (kind, 'x'.join(map(str, sh)), '|'.join(pat))
    if I.st.dead: ctx.violation('every array can be encoded and decoded', f, what + ': refused'); return
    res = [const(I.read(LV(T('arg', 3), (num(i),)))) for i in range(3)]
    facts = [notb(eqt(v, ZERO)) for v in want if v is not ZERO]
    for k, v in enumerate(want):
        g = plain(I.read(LV(T('arg', 4), (num(k),))))
        ctx.equal('elements come back in place', f, g, v, '%s: value %d' % (what, k), assume=facts)
    if None in res: ctx.unk('decoding consumes what encoding produced', what); return
    p, c, r = map(int, res)
    ctx.require('decoding consumes what encoding produced', f, p == c, '%s: %d produced, %d consumed' % (what, p, c))
    ctx.require('the announced length suffices', f, p <= r, '%s: %d produced, %d announced' % (what, p, r))
    for s in stores(I.nodes):
        if s.root is T('arg', 2) and s.path and isinstance(s.path[0], T):
            i = const(s.path[0])
            if i is not None and not 0 <= i < r: ctx.violation('the announced length suffices', f, '%s: writes word %d of %d' % (what, i, r), s.ln)
def check(ctx):
    P = ctx.program('probe_codec.cc'); done = 0; work = []; deep = ctx.tier == 'thorough'
    for f in P.find('probe::sup_round') + P.find('probe::sup_view') + P.find('probe::dense_round') + P.find('probe::dense_view'):
        m = re.search(r'probe<(\d+)[UL]*, (\d+)', f['qn']); d, nc = int(m.group(1)), int(m.group(2)); name = f['qs'].split('::')[-1]
        alpha = ['0', 'x'] if nc == 1 else ['00', '0x', 'x0', 'xx']
        if d == 1: shapes = [(n,) for n in range(1, (6 if nc == 1 else 3) + (2 if deep else 0))]
        else: shapes = [(1, 2), (2, 2), (2, 1)] + ([(2, 3), (3, 2)] if nc == 1 or deep else [])
        for sh in shapes:
            n = 1
            for x in sh: n *= x
            pats = list(itertools.product(alpha, repeat=n))
            if name != 'sup_round' or (n > 4 and d == 2 and not deep): pats = [p for j, p in enumerate(pats) if j % (13 if n > 4 else 5) == 0 or len(set(p)) == 1]
            for p in pats: work.append((f, d, nc, sh, p, {'sup_round': 'zero-suppressed', 'sup_view': 'zero-suppressed view', 'dense_round': 'dense', 'dense_view': 'dense view'}[name]))
    parallel(ctx, work, lambda w: one(ctx, P, *w)); done = len(work)
    for name in ('bound', 'bound_of'):
        for f in P.find('probe::' + name):
            m = re.search(r'probe<(\d+)[UL]*, (\d+)', f['qn']); d, nc = int(m.group(1)), int(m.group(2))
            for sh in itertools.product(range(1, 14 if d == 1 else 6), repeat=d):
                I = Interp(P)
                for i, x in enumerate(sh): I.write(LV(T('arg', 0), ('m_data', num(i))), num(x), note=False)
                I = ctx.run(f, I=I); v = const(I.rvret) if I.rvret is not None else None; n = 1
                for x in sh: n *= x
                worst = n * nc + (n + 1) // 2; what = '%s, shape %s' % (name, sh)
                if v is None: ctx.unk('the announced length covers the worst case', what)
                else: ctx.require('the announced length covers the worst case', f, v >= worst, '%s: announces %s, alternating zeros need %d' % (what, v, worst))
    ctx.atleast('round trips', done, 100)
