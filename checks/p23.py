"""Value graph of probe functions (tool/probe_arr.cc) that construct, resize, copy, append to and view an array of symbolic shape and
return the address an index expression denotes: compared with the row-major address of that element in storage of exactly the
required size, for every instantiated dimensionality; bounds checks are compared with the exact predicate; the element loops
are checked axis by axis to visit the address of the index they announce."""
from common import *
from region import *
from p22 import refuses
MIN_OBLIGATIONS = 150
def kind(ctx, f):
    m = re.search(r'NDVecArray<([\w ]+), (\d+)(?:UL)?, (\d+)(?:UL)?>', ctx.P.ty(f['clst']))
    return int(m.group(2)), int(m.group(3))
def row_major(ind, shape, vd):
    t = ZERO
    for i, s in zip(ind, shape): t = add(mul(t, s), i)
    return mul(num(vd), t)
def prod(xs):
    r = ONE
    for x in xs: r = mul(r, x)
    return r
def check(ctx):
    P = ctx.program('probe_arr.cc'); n = 0
    def each(name):
        for f in P.by.get('probe::' + name, []): yield f, *kind(ctx, f)
    av = lambda i, d: [argc(i, 'm_data', k) for k in range(d)]
    lt = lambda a, b: [tm.lt0(sub(x, y), True) for x, y in zip(a, b)]; leq = lambda a, b: [tm.le0(sub(x, y), True) for x, y in zip(a, b)]
    pos = lambda a: [tm.lt0(neg(x), True) for x in a]; plus = lambda a, b: [add(x, y) for x, y in zip(a, b)]; minus = lambda a, b: [sub(x, y) for x, y in zip(a, b)]
    def address(rule, f, d, vd, shape, ind, comp, asm, what):
        nonlocal n; n += 1
        I = ctx.run(f); r = I.rvret; what = '%s, %d axes' % (what, d); asm = asm + [tm.lt0(sub(comp, num(vd)), True)]
        for x in walk_exits(I.nodes):
            if x.what in ('abort', 'throw'): ctx.require(rule, f, {True: True, False: False, None: None}[decide.same(andb(*x.pc), FALSE, assume=asm)], '%s: a valid access is refused when %s' % (what, tm.show(andb(*x.pc))[:200]), x.ln)
        if r is None or r.op != 'ptr': ctx.unk(rule, what + ': ' + (tm.show(r)[:100] if r is not None else 'no value')); return
        root, path = r.args[0], r.args[1]
        if root.op != 'new' or len(path) != 1: ctx.unk(rule, what + ': ' + tm.show(r)[:100]); return
        ctx.equal(rule, f, path[0], add(row_major(ind, shape, vd), comp), what + ': place of the element', assume=asm)
        ctx.equal('storage has room for exactly the elements', f, I.read(LV(root, ('#size',))), mul(num(vd), prod(shape)), what + ': size of the storage', assume=asm)
    for f, d, vd in each('fresh'): address('elements are in row-major order', f, d, vd, av(0, d), av(1, d), argc(2), lt(av(1, d), av(0, d)), 'new array')
    for f, d, vd in each('filled'): address('elements are in row-major order', f, d, vd, av(0, d), av(1, d), argc(2), lt(av(1, d), av(0, d)), 'new array with value')
    for f, d, vd in each('constant'): address('elements are in row-major order', f, d, vd, av(0, d), av(1, d), argc(2), lt(av(1, d), av(0, d)), 'new array, read-only access')
    for f, d, vd in each('copied'): address('elements are in row-major order', f, d, vd, av(0, d), av(1, d), argc(2), lt(av(1, d), av(0, d)), 'copied array')
    for nm in ('resized', 'resized_value', 'assigned'):
        for f, d, vd in each(nm): address('elements are in row-major order', f, d, vd, av(1, d), av(2, d), argc(3), lt(av(2, d), av(1, d)) + pos(av(0, d)), nm.split('_')[0] + ' array')
    for f, d, vd in each('appended'):
        sh = [add(argc(0, 'm_data', 0), argc(1, 'm_data', 0))] + av(0, d)[1:]; eq = [eqt(argc(0, 'm_data', i), argc(1, 'm_data', i)) for i in range(1, d)]
        address('elements are in row-major order', f, d, vd, sh, av(2, d), argc(3), lt(av(2, d), sh) + pos(av(1, d)) + eq, 'enlarged array')
    for f, d, vd in each('copied_view'):
        s, vs, ve, i = (av(k, d) for k in range(4)); address('elements are in row-major order', f, d, vd, minus(ve, vs), i, argc(4), lt(vs, ve) + leq(ve, s) + lt(i, minus(ve, vs)), 'copy of a view')
    def viewed(rule, f, d, vd, shape, ind, comp, asm, what):
        nonlocal n; n += 1
        I = ctx.run(f); r = I.rvret; what = '%s, %d axes' % (what, d); asm = asm + [tm.lt0(sub(comp, num(vd)), True)]
        for x in walk_exits(I.nodes):
            if x.what in ('abort', 'throw'): ctx.require(rule, f, decide.same(andb(*x.pc), FALSE, assume=asm), '%s: a valid access is refused when %s' % (what, tm.show(andb(*x.pc))[:200]), x.ln)
        if r is None or r.op != 'ptr' or r.args[0].op != 'new' or len(r.args[1]) != 1: ctx.unk(rule, what); return
        news = {st.root for st in stores(I.nodes) if st.root.op == 'new' and st.path and st.path[-1] == '#size'}
        if len(news) > 1: ctx.violation('a view shares the storage of its array', f, what + ': another storage is created'); return
        ctx.equal(rule, f, r.args[1][0], add(row_major(ind, shape, vd), comp), what + ': place of the element', assume=asm)
    for nm in ('viewed', 'viewed_const'):
        for f, d, vd in each(nm):
            s, vs, ve, i = (av(k, d) for k in range(4)); viewed('a view addresses the elements of its array', f, d, vd, s, plus(vs, i), argc(4), lt(vs, ve) + leq(ve, s) + lt(i, minus(ve, vs)), 'view')
    for f, d, vd in each('viewed_twice'):
        s, vs, ve, ws, we, i = (av(k, d) for k in range(6)); viewed('a view addresses the elements of its array', f, d, vd, s, plus(vs, plus(ws, i)), argc(6), lt(vs, ve) + leq(ve, s) + lt(ws, we) + leq(we, minus(ve, vs)) + lt(i, minus(we, ws)), 'view of a view')
    one = lambda q, k: P.by.get('probe1::' + q, [])[:k]
    for f in one('fresh', 1): address('elements are in row-major order', f, 1, 2, [argc(0)], [argc(1)], ZERO, [tm.lt0(sub(argc(1), argc(0)), True)], 'single index')
    for f in one('resized', 1): address('elements are in row-major order', f, 1, 2, [argc(1)], [argc(2)], ZERO, [tm.lt0(sub(argc(2), argc(1)), True)], 'single index after resizing')
    for f in one('viewed', 1): viewed('a view addresses the elements of its array', f, 1, 2, [argc(0)], plus(av(1, 1), [argc(3)]), ZERO, lt(av(1, 1), av(2, 1)) + leq(av(2, 1), [argc(0)]) + lt([argc(3)], minus(av(2, 1), av(1, 1))), 'single index of a view')
    def value(rule, name, want, asm=lambda d: []):
        nonlocal n
        for f, d, vd in each(name):
            n += 1; I = ctx.run(f); w = want(d, vd)
            if isinstance(w, list):
                for i in range(d): ctx.equal(rule, f, vec(I.rvret, i), w[i], '%s, %d axes, axis %d' % (name, d, i), assume=asm(d))
            else: ctx.equal(rule, f, I.rvret, w, '%s, %d axes' % (name, d), assume=asm(d))
    for nm, k in (('', 0), ('_resized', 1), ('_copy', 0)):
        value('reported number of elements', 'number' + nm, lambda d, vd: prod(av(k, d))); value('reported volume', 'volume' + nm, lambda d, vd: mul(num(vd), prod(av(k, d)))); value('reported shape', 'shape' + nm, lambda d, vd: av(k, d))
    reg = lambda d: lt(av(1, d), av(2, d)) + leq(av(2, d), av(0, d))
    value('reported number of elements', 'number_view', lambda d, vd: prod(minus(av(2, d), av(1, d))), reg); value('reported volume', 'volume_view', lambda d, vd: mul(num(vd), prod(minus(av(2, d), av(1, d)))), reg); value('reported shape', 'shape_view', lambda d, vd: minus(av(2, d), av(1, d)), reg)
    # bounds
    sh = lambda d: [argc(0, 'm_shape', 'm_data', k) for k in range(d)]
    inside = lambda i, s: andb(*lt(i, s))
    value('bounds test', 'has', lambda d, vd: inside(av(1, d), sh(d))); value('bounds test', 'within', lambda d, vd: inside(av(1, d), sh(d))); value('bounds test', 'has_shape', lambda d, vd: inside(av(1, d), av(0, d)))
    value('bounds test', 'has_view', lambda d, vd: inside(av(3, d), minus(av(2, d), av(1, d))), lambda d: lt(av(1, d), av(2, d)))
    for nm in ('indexed', 'indexed_const'):
        for f, d, vd in each(nm):
            I = ctx.run(f); n += 1; i, s = av(1, d), sh(d)
            refuses(ctx, f, I, lt(i, s), [('index beyond axis %d' % k, [tm.le0(sub(s[k], i[k]), True)]) for k in range(d)], '%s element access, %d axes' % ('read-only' if 'const' in nm else 'mutable', d))
    for f in one('indexed', 1):
        I = ctx.run(f); i, s = argc(1), sh(1)[0]; refuses(ctx, f, I, [tm.lt0(sub(i, s), True)], [('index beyond the end', [tm.le0(sub(s, i), True)])], 'single-index access')
    # element loops
    A0 = LV(T('arg', 0))
    def elements(rule, f, I, R, d, vd, evs, want_ind, lo, hi, pre):
        L = array(A0, d, vd); what = '%d axes' % d
        if len(evs) != 1: (ctx.unk if evs or I.unknown else (lambda r, w: ctx.violation(r, f, w + ': the worker is never called')))(rule, what); return
        e = evs[0]; v = e.args[-1]
        if v.op != 'span' or v.args[0].op != 'ptr' or len(v.args[0].args[1]) != 1 or v.args[0].args[0] is not L.root: ctx.unk(rule, what + ': ' + tm.show(v)[:100]); return
        idx = v.args[0].args[1][0]; x = Access(L.root, idx, e.pc, e.ln)
        comp = covers(ctx, rule, f, I, R, x, L, lo, hi, what=what, pre=pre, space=R.vars(I.nodes, e))
        if comp == 'all' and vd > 1: ctx.violation(rule, f, '%s: elements overlap: address %s' % (what, tm.show(idx)), e.ln)
        elif comp and comp != 'all': ctx.violation(rule, f, '%s: element starts at component %d' % (what, comp), e.ln)
        if want_ind:
            t = L.off
            for k in range(d): t = add(t, mul(vec(e.args[0], k), L.fix(L.st[k]) if k < d - 1 else num(vd)))
            ctx.equal(rule + ': index belongs to the element', f, L.fix(idx), t, what, ln=e.ln)
    for f, d, vd in each('loop'):
        R = Regions(ctx); I = ctx.run(f, R); n += 1; elements('loop visits every element', f, I, R, d, vd, [e for e in events(I.nodes) if e.name == 'callback'], False, [ZERO] * d, sh(d), pos(sh(d)))
    for f, d, vd in each('index_loop'):
        R = Regions(ctx); I = ctx.run(f, R); n += 1; elements('loop visits every element', f, I, R, d, vd, [e for e in events(I.nodes) if e.name == 'callback'], True, [ZERO] * d, sh(d), pos(sh(d)))
    for f, d, vd in each('index_region'):
        R = Regions(ctx); I = ctx.run(f, R); n += 1; s, e = av(1, d), av(2, d); elements('loop visits every element of the region', f, I, R, d, vd, [x for x in events(I.nodes) if x.name == 'callback'], True, s, e, lt(s, e) + leq(e, sh(d)))
    for f, d, vd in each('sequential'):
        I = ctx.run(f); n += 1; L = array(A0, d, vd); evs = [x for x in events(I.nodes) if x.name == 'callback']; what = '%d axes' % d
        if len(evs) != 1: ctx.unk('sequential access', what); continue
        e = evs[0]; loops = [l for t, l in nest(I.nodes, e) if t == 'loop']; v = e.args[-1]
        if len(loops) != 1 or loops[0].trips is None or loop_leaves_early(loops[0]) or v.op != 'span' or v.args[0].op != 'ptr' or len(v.args[0].args[1]) != 1: ctx.unk('sequential access', what); continue
        ctx.equal('sequential access', f, loops[0].trips, T('ld', T('arg', 2), ('#size',)), what + ': one call per requested index', ln=e.ln)
        t = L.off
        for k in range(d): t = add(t, mul(argc(1, 'm_data', k), L.st[k]))
        ctx.equal('sequential access', f, v.args[0].args[1][0], add(t, mul(num(vd), T('ld', T('arg', 2), (loops[0].K,)))), what + ': place of the element', ln=e.ln)
        other = [c for c in e.pc if c is not loops[0].cond]
        if other: ctx.require('sequential access', f, decide.holds(andb(*other), lt(av(1, d), sh(d))), what + ': done only if ' + tm.show(andb(*other))[:200], e.ln)
    # null tests
    for f, d, vd in each('null'):
        I = ctx.run(f); n += 1; L = array(A0, d, vd); at = L.off
        for k in range(d): at = add(at, mul(argc(1, 'm_data', k), L.st[k]))
        ctx.equal('null element', f, I.rvret, andb(*[eqt(T('ld', L.root, (add(at, num(c)),)), ZERO) for c in range(vd)]), '%d axes' % d, assume=lt(av(1, d), sh(d)), hi=1)
    for f, d, vd in each('all_null'): 
        R = Regions(ctx); I = ctx.run(f, R); n += 1; all_null(ctx, f, I, R, d, vd)
    ctx.atleast('probe functions', n, 90)
def zeros(t, root):
    """value of t if every element of the array is zero"""
    m = {}
    for x in tm.atoms(t):
        if x.op == 'eq0' and x.args[0].op == 'ld' and x.args[0].args[0] is root: m[x] = TRUE
    t = tm.subst(t, m)
    for _ in range(4):
        m = {x: TRUE for x in tm.atoms(t) if x.op == 'fold' and x.args[2] is TRUE and tm.subst(x.args[3], {x.args[5]: TRUE}) is TRUE}
        if not m: break
        t = tm.subst(t, m)
    return t
def all_null(ctx, f, I, R, d, vd):
    """the result is a conjunction over loops; its elements cover the array"""
    rule = 'all-null test looks at every element'; L = array(LV(T('arg', 0)), d, vd); sh = [argc(0, 'm_shape', 'm_data', k) for k in range(d)]; what = '%d axes' % d
    vs = []; facts = []; t = I.rvret; pc = []
    while t.op == 'fold':
        lab, trips, init, nxt, K, mu = t.args
        r = next((r for r in R.all if r.loop is not None and (r.loop.label == lab or r.loop.K is K and trips.op == 'none')), None)
        ctx.equal(rule, f, init, TRUE, what + ': starts from true'); forget = tm.subst(nxt, {mu: FALSE})
        if zeros(forget, L.root) is TRUE: ctx.violation(rule, f, what + ': a value found in one piece is forgotten when the next piece is empty')
        else: ctx.equal(rule, f, forget, FALSE, what + ': a value found stays found')
        if r is not None:
            for i, c in enumerate(r.c):
                if c.op == 'sym' and c.args[0] == 'c': vs.append((c, r.lo[i], r.hi[i])); facts += [tm.le0(sub(r.lo[i], c), True), tm.lt0(sub(c, r.hi[i]), True)]
                else: facts.append(tm.lt0(sub(r.lo[i], r.hi[i]), True))
        elif trips.op != 'none': vs.append((K, ZERO, trips)); facts += [tm.le0(neg(K), True), tm.lt0(sub(K, trips), True)]
        else: ctx.unk(rule, what + ': loop form'); return
        t = tm.subst(nxt, {mu: TRUE})
    parts = list(t.args) if t.op == 'and' else [t]; got = []
    for p in parts:
        a = p.args[0] if p.op == 'eq0' else None
        if a is None or a.op != 'ld' or a.args[0] is not L.root or len(a.args[1]) != 1: 
            if decide.has_opaque(p): ctx.unk(rule, what + ': ' + tm.show(p)[:100])
            else: ctx.violation(rule, f, '%s: tests %s' % (what, tm.show(p)[:100]))
            return
        got.append(covers(ctx, rule, f, I, R, Access(L.root, a.args[1][0], [], None), L, [ZERO] * d, sh, what=what, pre=[tm.lt0(neg(x), True) for x in sh], space=(vs, True, facts)))
    all_components(ctx, rule, f, got, vd)
