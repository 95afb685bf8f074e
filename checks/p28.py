"""P28: the analytic dipole Green's function is causal, is the field of the dipole, and is stored under the coordinates it was evaluated for."""
from common import *
import math
TECHNIQUE = 'gated value-graph dataflow (value numbering) compared with reference terms; call-argument correspondence between evaluation, registration and metadata'
NS = 'GreensFunctionCalculator::Analytic::'
def R(x): return T('sym', x)
def inline(x): return T('sqrt', x)
def fields(ctx, P):
    f = ctx.fn('EvaluateElectricDipoleGreensFunction', pred=lambda f: True, need=False) or ctx.fn('(anonymous namespace)::EvaluateElectricDipoleGreensFunction')
    got = []
    def pol(h):
        q = h['qs']
        if q.endswith('::index_loop_over_elements'):
            def cb(I, h, this, args, ln):
                ind = I.lv(T('sym', 'cell')); el = I.fresh('elem'); n0 = len(I.out)
                r = cells(I, I.rv(args[-1]), lambda: [ind, T('span', el.sub(ZERO).ptr(), num(2))], ln); got.append((el, ind, I.out[n0:])); return r
            return cb
        if q == 'MathUtils::incomplete_gamma':     # a smooth stand-in: only its arguments matter
            return lambda I, h, this, args, ln: T('sin', add(mul(num(3), I.rv(args[0])), I.rv(args[1])))
        return 'inline'
    I = ctx.run(f, pol); names = [p['n'] for p in f['params']]
    if len(got) != 1: ctx.unk('evaluation of the elements', '%d loops' % len(got)); return
    el, ind, body = got[0]; n = {i: a for i, a in enumerate(names)}
    val = {}
    for x in stores(body):
        if x.root is el.root and x.path: val[const(x.path[-1])] = x
    if set(val) != {0, 1}: ctx.unk('evaluation of the elements', 'components %s' % sorted(val)); return
    ix = lambda i: proj(T('sym', 'cell'), ('m_data', num(i)))
    S = [argc(0, 'm_data', i) for i in range(3)]; H = [argc(1, 'm_data', i) for i in range(3)]; A = lambda i: T('arg', i)
    ior, tp, no, rmin = A(2), A(3), A(4), A(5)
    r_, z_, t_ = [add(S[i], mul(H[i], ix(i))) for i in range(3)]
    rho = T('abs', r_); d = T('sqrt', add(mul(r_, r_), mul(z_, z_))); prop = mul(d, ior); td = sub(t_, prop); eps = mul(ior, ior)
    g = lambda a, x: T('sin', add(mul(num(3), a), x)); ex = lambda x: T('exp', x); lg = lambda x: T('lgamma', x); pw = lambda a, b: T('pow', a, b)
    u = mul(div(td, tp), no)
    theta = sub(ONE, div(g(add(no, ONE), u), ex(lg(add(no, ONE)))))
    delta = div(mul(pw(u, no), ex(neg(u))), mul(tp, ex(lg(no))))
    dprime = div(mul(mul(delta, sub(tp, td)), no), mul(tp, td))
    K = div(ONE, mul(eps, num(interp.Fraction(4 * math.pi)))); r3 = mul(d, mul(d, d))
    Er = neg(mul(mul(num(2), K), mul(div(div(z_, d), r3), add(theta, mul(prop, delta)))))
    Et = neg(mul(K, mul(div(div(rho, d), r3), add(add(theta, mul(prop, delta)), mul(mul(prop, prop), dprime)))))
    want = [add(mul(Er, div(rho, d)), mul(Et, div(z_, d))), sub(mul(Er, div(z_, d)), mul(Et, div(rho, d)))]
    F = decide.Fraction; q = lambda a, b: (lambda r: F(r.randint(a * 16, b * 16), 16))
    dom = {ior: q(1, 2), tp: q(1, 3), no: (lambda r: F(r.randint(2, 5))), rmin: (lambda r: F(1, 16)), **{x: q(0, 3) for x in S}, **{x: q(1, 2) for x in H}, **{ix(i): (lambda r: F(r.randint(0, 3))) for i in range(3)}, S[2]: q(0, 8), H[2]: q(0, 4)}
    pos = [tm.lt0(sub(rmin, d), False)]; eps_ = num(F(1, 64))     # (a margin around the arrival: rounding may decide there)
    for c in (0, 1):
        v = tm.subst(val[c].val, {T('ld', T('arg', i), ()): T('arg', i) for i in range(2, 6)}); nm = 'component %d' % c
        ctx.equal('nothing arrives before the light does', f, v, ZERO, nm, assume=pos + [tm.lt0(add(td, eps_), False)], ln=val[c].ln, dom=dom, n=4000)
        ctx.equal('the stored value is the field of the dipole at the place of the sample', f, v, want[c], nm, assume=pos + [tm.lt0(sub(eps_, td), False)], ln=val[c].ln, dom=dom, n=4000)
        # far away, the radiation part decays with the distance: place and time scaled by k, at the same time after the arrival
    for x in val.values():
        pc = [c for c in x.pc if not decide.has_opaque(c) and 'nondet' not in tm.show(c)]
        ctx.require('every element is stored', f, decide.holds(andb(*pc), pos, dom=dom, n=600) if pc else True, 'stored only if %s' % tm.show(andb(*pc))[:200], x.ln)
def grid(ctx, P):
    f = ctx.fn(NS + 'ElectricDipole'); ev_ = {}; chunk = {}
    def pol(h):
        q = h['qs']
        if q.endswith('EvaluateElectricDipoleGreensFunction'):
            return lambda I, h, this, args, ln: (ev_.setdefault('evaluate', []).append([I.rv(a) if not isinstance(a, LV) or i < 2 else a for i, a in enumerate(args)]), T('undef', 'void'))[1]
        if q == 'IteratorUtils::index_loop_over_chunks':
            def cb(I, h, this, args, ln):
                ev_.setdefault('loop', []).append([I.rv(a) for a in args[:3]])
                return cells(I, I.rv(args[-1]), lambda: [I.lv(T('sym', 'cs')), I.lv(T('sym', 'ce'))], ln)
            return cb
        if q.endswith('::resize') and 'NDVecArray' in q:
            return lambda I, h, this, args, ln: (ev_.setdefault('resize', []).append((this.ptr(), I.rv(args[0]))), T('undef', 'void'))[1]
        if q.endswith('DistributedNDVecArray::RegisterChunk'):
            return lambda I, h, this, args, ln: (ev_.setdefault('register', []).append([args[0].ptr() if isinstance(args[0], LV) else args[0]] + [I.rv(a) for a in args[1:3]] + [len(h['params'])]), T('undef', 'void'))[1]
        if q.endswith('DistributedNDVecArray::RebuildChunks'):
            return lambda I, h, this, args, ln: (ev_.setdefault('rebuild', []).append([I.rv(a) for a in args[:3]]), T('undef', 'void'))[1]
        if q == 'CylindricalGreensFunction::CylindricalGreensFunction' and len(h['params']) == 4:
            return lambda I, h, this, args, ln: (ev_.setdefault('green', []).append([I.rv(a) for a in args[:3]]), None)[1]
        if h['kind'] in ('ctor', 'dtor') and ('NDVecArray' in q or 'Green' in q): return 'opaque'
        return 'inline'
    I = ctx.run(f, pol)
    miss = [k for k in ('evaluate', 'loop', 'register', 'green') if not ev_.get(k)]
    if miss: ctx.unk('sampling of the analytic function', 'not found once: %s' % miss); return
    e, l, r, g = ev_['evaluate'][-1], ev_['loop'][-1], ev_['register'][-1], ev_['green'][-1]; SB = {T('ld', T('arg', i), ()): T('arg', i) for i in range(4, 11)}; sb = lambda t: tm.subst(t, SB) if isinstance(t, T) else t; V = lambda a, i: sb(vec(a, i))
    names = [p['n'] for p in f['params']]; st = lambda k: [argc(k, 'm_data', i) for i in range(2)]
    S0 = st(2) + [ZERO]; S1 = st(3) + [T('arg', 4)]; cs = lambda i: proj(T('sym', 'cs'), ('m_data', num(i))); ce = lambda i: proj(T('sym', 'ce'), ('m_data', num(i)))
    F = decide.Fraction; q = lambda a, b: (lambda r: F(r.randint(a * 16, b * 16), 16))
    ior, tp, no, os_ = T('arg', 5), T('arg', 6), T('arg', 7), T('arg', 9)
    dom = {ior: q(1, 2), tp: q(2, 5), no: (lambda r: F(r.randint(2, 6))), os_: q(2, 6), **{x: q(0, 3) for x in S0[:2]}, **{x: q(40, 70) for x in S1}}
    X = T('sqrt', sub(T('pow', num(2), div(ONE, add(no, ONE))), ONE)); fmax = mul(div(no, mul(num(F(2 * math.pi)), tp)), X)
    dt = div(ONE, mul(mul(num(2), fmax), os_)); dx = div(dt, ior); D = [dx, dx, dt]
    for i in range(3):
        ax = 'axis %d' % i; h = V(g[2], i); kw = dict(dom=dom, n=400)
        ctx.equal('the samples lie where they are looked up', f, V(e[1], i), h, 'spacing, ' + ax, **kw)
        ctx.equal('the samples lie where they are looked up', f, V(e[0], i), add(V(g[0], i), mul(cs(i), h)), 'first sample of a chunk, ' + ax, **kw)
        ctx.equal('the samples lie where they are looked up', f, V(r[1], i), cs(i), 'registered at, ' + ax, **kw)
        ctx.equal('the grid covers what is requested', f, V(g[0], i), S0[i], 'start, ' + ax, **kw)
        ctx.equal('the grid covers what is requested', f, V(g[1], i), S1[i], 'end, ' + ax, **kw)
        ctx.equal('the grid covers what is requested', f, V(l[0], i), ZERO, 'first index, ' + ax, **kw)
        cov = add(S0[i], mul(sub(V(l[1], i), ONE), h))
        v = decide.holds(tm.le0(sub(sub(S1[i], cov), mul(num(F(1, 1000)), h)), True), [], dom=dom, n=300)
        ctx.require('the grid covers what is requested', f, v, 'the last sample lies at %s, %s' % (tm.show(cov)[:300], ax))
        for u, w in ((D[i], h), (h, D[i])):          # an integer number of steps has to fit, so the spacing may deviate a little
            v = decide.holds(tm.le0(sub(u, mul(num(F(3, 2)), w)), True), [], dom=dom, n=300)
            ctx.require('the sampling is the requested one', f, v, 'the spacing is %s, %s' % (tm.show(h)[:300], ax))
    for j, k in ((2, 5), (3, 6), (4, 7), (5, 8)): ctx.equal('the requested medium and filter are used', f, sb(e[j] if isinstance(e[j], T) else I.rv(e[j])), T('arg', k), f['params'][k]['n'])
    rs = ev_.get('resize', [])
    if rs:
        for i in range(3): ctx.equal('a chunk is filled completely', f, V(rs[-1][1], i), sub(ce(i), cs(i)), 'axis %d' % i)
        ctx.require('a chunk is filled completely', f, True if rs[-1][0] is r[0] else None, 'the buffer registered')
    rb = ev_.get('rebuild', [])
    if rb: 
        k = const(rb[-1][2]); ctx.require('the chunks overlap enough for the interpolation', f, None if k is None else k >= 2, 'overlap %s' % rb[-1][2])
def check(ctx):
    P = ctx.program(); fields(ctx, P); grid(ctx, P)
    ctx.atleast('obligations', len(ctx.oblig) + len(ctx.viol), 10)
    ctx.rule = 'value of the stored elements, and correspondence of evaluation coordinates with lookup coordinates'
