"""Value-graph comparison of every vector operation with its defining element-wise term, for symbolic operands:
the summary of each function (all paths, all operands) is put in normal form and compared component by component
with op(lhs[i], rhs[i]); stores to anything but the declared result are reported."""
from common import *
MIN_OBLIGATIONS = 60
BIN = {'+': add, '-': sub, '*': mul}
def vdims(t):
    m = re.match(r'(?:const )?Vector<(.+), (\d+)>', t)
    return (m.group(1), int(m.group(2))) if m else (None, None)
def opfun(op, ty):
    if op == '/': return div if ty in interp.FLOATY else (lambda a, b: T('idiv', a, b))
    return BIN[op]
def readonly(ctx, I, f, rule, allow=()):
    for st in stores(I.nodes):
        if st.root.op in ('arg', 'this', 'deref', 'spbuf', 'glob') and st.root not in allow:
            ctx.violation(rule, f, 'operand is modified: %r' % st)
def check(ctx):
    P = ctx.program(); n = 0
    for op in '+-*/':
        for f in P.by.get('operator' + op, []):
            if len(f['params']) != 2: continue
            t0, t1 = [P.ty(p['t']) for p in f['params']]; ty, d = vdims(t0); ty1, d1 = vdims(t1)
            if ty is None: continue
            n += 1; I = ctx.run(f); g = opfun(op, ty)
            for i in range(d):
                b = argc(1, 'm_data', i) if ty1 else argc(1)
                ctx.equal('element-wise operator', f, vec(I.rvret, i), g(argc(0, 'm_data', i), b), 'component %d of %s%s%s' % (i, t0, op, t1), hi=9)
            readonly(ctx, I, f, 'operands unchanged')
        for f in P.by.get('Vector::operator%s=' % op, []):
            if len(f['params']) != 1: continue
            ty, d = vdims(P.ty(f['clst'])); ty1, _ = vdims(P.ty(f['params'][0]['t']))
            n += 1; I = ctx.run(f); g = opfun(op, ty); th = LV(T('this'))
            for i in range(d):
                b = argc(0, 'm_data', i) if ty1 else argc(0)
                want = g(thisf('m_data', i), b)
                ctx.equal('compound assignment', f, I.read(th.sub('m_data').sub(num(i))), want, 'component %d' % i, hi=9)
                ctx.equal('compound assignment result', f, vec(I.rvret, i), want, 'component %d of the result' % i, hi=9)
            readonly(ctx, I, f, 'operands unchanged', (T('this'),))
    for name in ('operator==', 'operator!=', 'operator>='):
        for f in P.by.get(name, []):
            if len(f['params']) != 2: continue
            ty, d = vdims(P.ty(f['params'][0]['t'])); ty1, d1 = vdims(P.ty(f['params'][1]['t']))
            if ty is None or ty1 is None: continue
            n += 1; I = ctx.run(f); L = [argc(0, 'm_data', i) for i in range(d)]; R = [argc(1, 'm_data', i) for i in range(d)]
            if name == 'operator>=': spec = andb(*[I.cmp('>=', a, b, ty in interp.FLOATY) for a, b in zip(L, R)])
            else:
                spec = andb(*[eqt(a, b) for a, b in zip(L, R)])
                if name == 'operator!=': spec = notb(spec)
            ctx.equal('comparison', f, I.rvret, spec, name, hi=2)
            readonly(ctx, I, f, 'operands unchanged')
    # constructors and assignment
    for f in P.by.get('Vector::Vector', []) + P.by.get('Vector::operator=', []):
        ty, d = vdims(P.ty(f['clst'])); ps = [P.ty(p['t']) for p in f['params']]
        if ty is None or f.get('implicit'): continue
        I = ctx.run(f); th = LV(T('this')); n += 1
        for i in range(d):
            got = I.read(th.sub('m_data').sub(num(i)))
            if len(ps) == d and d > 1: want = argc(i)
            elif len(ps) == 0: want = ZERO
            elif len(ps) == 1:
                v, _ = vdims(ps[0])
                if v: want = argc(0, 'm_data', i)
                elif 'span' in ps[0]: want = T('ld', T('spbuf', argc(0)), (num(i),))
                elif 'array' in ps[0] or 'data_t' in ps[0]: want = argc(0, i)
                else: want = argc(0)
            else: continue
            ctx.equal('construction', f, got, want, 'component %d from (%s)' % (i, ', '.join(ps)))
    for q in ('Vector::operator[]', 'Vector::at'):
        for f in P.by.get(q, []):
            I = ctx.run(f); n += 1
            ctx.equal('element access', f, I.ret.ptr() if isinstance(I.ret, LV) else I.ret, T('ptr', T('this'), ('m_data', argc(0))), 'address returned')
            if q.endswith('at'):
                ex = [x for x in walk_exits(I.nodes) if x.what == 'throw']; d = vdims(P.ty(f['clst']))[1]
                c = orb(*[andb(*x.pc) for x in ex]) if ex else FALSE
                ctx.equal('bounds-checked access', f, c, I.cmp('>=', argc(0), num(d), False), 'refuses exactly the indices beyond the last component', hi=9)
    for f in P.by.get('Vector::as_type', []):
        I = ctx.run(f); d = vdims(P.ty(f['clst']))[1]; n += 1
        for i in range(d):
            got = vec(I.rvret, i)
            if got.op in ('trunc', 'narrow'): got = got.args[-1]
            ctx.equal('type conversion', f, got, thisf('m_data', i), 'component %d' % i)
    for q in ('min', 'max'):
        for f in P.by.get('VectorUtils::' + q, []):
            ps = [P.ty(p['t']) for p in f['params']]; ty, d = vdims(ps[0]); ty1, _ = vdims(ps[1]); n += 1
            I = ctx.run(f)
            for i in range(d):
                b = argc(1, 'm_data', i) if ty1 else argc(1)
                ctx.equal('element-wise ' + q, f, vec(I.rvret, i), minmax(q, argc(0, 'm_data', i), b), 'component %d' % i)
            readonly(ctx, I, f, 'operands unchanged')
    for q, o in (('ceil_nonneg', 'ceil'), ('floor_nonneg', 'floor')):
        for f in P.by.get('VectorUtils::' + q, []):
            I = ctx.run(f); d = vdims(P.ty(f['params'][0]['t']))[1]; n += 1
            for i in range(d): ctx.equal('rounding', f, vec(I.rvret, i), T(o, argc(0, 'm_data', i)), 'component %d' % i, ints=lambda t: False)
    for f in P.by.get('VectorUtils::inner', []):
        I = ctx.run(f); d = vdims(P.ty(f['params'][0]['t']))[1]; n += 1; w = ZERO
        for i in range(d): w = add(w, mul(argc(0, 'm_data', i), argc(1, 'm_data', i)))
        ctx.equal('inner product', f, I.rvret, w, 'sum of products')
    # vector views
    for f in P.by.get('VectorView::operator=', []):
        I = ctx.run(f); n += 1; v = 'Vector<' in P.ty(f['params'][0]['t'])
        m = re.search(r', (\d+)>', P.ty(f['params'][0]['t'])); d = int(m.group(1))
        sb = LV(T('spbuf', T('ld', T('this'), ())))
        for i in range(d):
            want = argc(0, 'm_data', i) if v else T('ld', T('spbuf', argc(0)), (num(i),))
            ctx.equal('view assignment copies through', f, I.read(sb.sub(num(i))), want, 'component %d' % i)
    for f in P.by.get('IsNullVector', []):
        I = ctx.run(f); m = re.search(r', (\d+)>', P.ty(f['params'][0]['t'])); d = int(m.group(1)); n += 1
        sb = T('spbuf', argc(0))
        ctx.equal('null test', f, I.rvret, andb(*[eqt(T('ld', sb, (num(i),)), ZERO) for i in range(d)]), 'true iff every component is zero', hi=1)
    # norms and volume helpers that other parts define on vectors
    ctx.atleast('vector operations', n, 50)
