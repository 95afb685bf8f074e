"""Polynomial normal form of the weights written by every kernel: sum is 1, value reproduction at the sample
positions, first-moment reproduction, and number of weights = 2*support, all as identities in the fractional
position (no sampling of positions)."""
from common import *
MIN_OBLIGATIONS = 14
def kernels(ctx):
    P = ctx.P; out = []
    for q, fs in P.by.items():
        if q.startswith('Interpolation::Kernel::') and q.endswith('::kern'): out += fs
    return out
def weights(ctx, f, x=None):
    """term of every weight as a function of the fractional position"""
    x = x if x is not None else T('sym', 'frac')
    I = ctx.run(f, argvals={0: x}); w = {}
    for st in stores(I.nodes):
        if st.root is T('arg', 1) and len(st.path) == 1 and const(st.path[0]) is not None: w[int(const(st.path[0]))] = I.read(LV(st.root, st.path))
        else: w['other'] = st
    return I, w
def support(ctx, f):
    cls = f['qs'].rsplit('::', 1)[0]
    for g in ctx.P.glob.values():
        if g.get('qn') == cls + '::support':
            I = Interp(ctx.P); I.frames.append(interp.Frame(f)); return int(const(I.rv(I.eval(g['init']))))
    return None
def check(ctx):
    P = ctx.program(); ks = kernels(ctx); ctx.atleast('interpolation kernels', len(ks), 2); x = T('sym', 'frac')
    linear = 0
    for f in ks:
        I, w = weights(ctx, f); S = support(ctx, f)
        if 'other' in w: ctx.unk('weights', f['qs']); continue
        dom = {'dom': {x: (lambda r: decide.Fraction(r.randint(0, 99), 100), lambda v: 0 <= v < 1)}}
        if S is not None:
            if sorted(w) != list(range(2 * S)): ctx.violation('declared support', f, 'writes weights %s but declares support %d (weights 0..%d are used)' % (sorted(w), S, 2 * S - 1))
            else: ctx.ok('declared support', f['qs'])
        else: S = len(w) // 2; ctx.unk('declared support', f['qs'])
        tot = ZERO; mom = ZERO
        for k in w: tot = add(tot, w[k]); mom = add(mom, mul(num(k - (S - 1)), w[k]))
        ctx.equal('weights sum to one', f, tot, ONE, f['qs'], **dom)
        for k in w:
            ctx.equal('exact at the sample itself', f, tm.subst(w[k], {x: ZERO}), ONE if k == S - 1 else ZERO, 'weight %d at fraction 0' % k)
            ctx.equal('exact at the next sample', f, tm.subst(w[k], {x: ONE}), ONE if k == S else ZERO, 'weight %d towards fraction 1' % k)
        ctx.equal('reproduces linear functions', f, mom, x, f['qs'], **dom)
        # symmetric kernels: w_k(1-x) = w_{2S-1-k}(x)
        for k in w:
            if 2 * S - 1 - k in w: ctx.equal('mirror symmetry', f, tm.subst(w[k], {x: sub(ONE, x)}), w[2 * S - 1 - k], 'weight %d' % k, **dom)
        # the accepted range of fractional positions is exactly [0, 1)
        bad = [e for e in walk_exits(I.nodes) if e.what == 'abort']
        for e in bad:
            c = andb(*e.pc)
            v = decide.holds(notb(c), [I.cmp('>=', x, ZERO, True), I.cmp('<', x, ONE, True)], **dom)
            ctx.require('every fraction in [0,1) accepted', f, v, 'precondition at line %s rejects a fraction in [0,1)' % e.ln, e.ln)
        # known closed forms
        if f['qs'].endswith('Keys::kern'):
            H = num(decide.Fraction(1, 2)); spec = {0: mul(mul(neg(H), x), mul(sub(x, ONE), sub(x, ONE))), 3: mul(mul(H, sub(x, ONE)), mul(x, x))}
            for k, t in spec.items():
                if k in w: ctx.equal('cubic convolution weights', f, w[k], t, 'weight %d' % k, **dom)
