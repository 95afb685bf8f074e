"""Value graph of the copying operations of the in-memory array (copy, assignment, fill, fill_from, append, axis swap) over symbolic shapes,
strides, offsets and regions: for every element of the target region the stored value is compared with the element it must be a copy of,
the region written with the region requested, the storage with fresh storage; refusals are compared with the stated preconditions."""
from common import *
from region import *
MIN_OBLIGATIONS = 60
def strides(ctx, strd):
    """strides of freshly shaped arrays are symbols (their values are P23)"""
    def cs(I, h, this, args, ln):
        d = int(re.findall(r'(\d+)>', ctx.P.ty(h['params'][0]['t']))[-1]) if h['params'] else 1; vd = dims(ctx, h)[2]; lv = I.fresh('tmp'); I.write(lv.sub('m_data'), T('undef', 'str'), note=False)
        for i in range(d): I.write(lv.sub('m_data').sub(num(i)), num(vd) if i == d - 1 else T('sym', 'st', I.uid(), i), note=False)
        return I.rv(lv)
    return cs
def base(ctx):
    cs = strides(ctx, None)
    return lambda f: cs if f['qs'] == 'NDVecArray::ComputeStrides' else 'inline'
def shape(l, d): return [T('ld', l.root, l.path + ('m_shape', 'm_data', num(i))) for i in range(d)]
def cur(I, l, d, vd):
    """layout of an array in the final state"""
    p = I.read(l.sub('m_data'))
    return Layout(deref(p).root if p.op == 'ptr' and not p.args[1] else T('deref', p), I.read(l.sub('m_offset')), [I.read(l.sub('m_strides').sub('m_data').sub(num(i))) for i in range(d)], vd)
def refuses(ctx, f, I, valid, invalid, what):
    """aborts / throws in no valid case, and in every one of the invalid ones"""
    ex = [x for x in walk_exits(I.nodes) if x.what in ('throw', 'abort')]
    for x in ex:
        v = decide.same(andb(*x.pc), FALSE, assume=valid)
        if v is False: ctx.violation('valid requests are carried out', f, '%s: refused when %s' % (what, tm.show(andb(*x.pc))[:300]), x.ln)
        elif v is None: ctx.unk('valid requests are carried out', what)
        else: ctx.ok('valid requests are carried out', what)
    c = orb(*[andb(*x.pc) for x in ex]) if ex else FALSE
    for nm, asm in invalid: ctx.require('other requests are refused', f, decide.holds(c, asm), '%s: %s' % (what, nm))
def dest_stores(I, root): return [s for s in stores(I.nodes) if s.root is root and s.path and s.path[-1] != '#size']
def branch(x, asm):
    """done only in one branch of a decision that does not depend on the position"""
    c = [c for c in x.pc if not any(a.op == 'iv' for a in tm.atoms(c))]
    return bool(c) and decide.holds(andb(*c), asm) is not True
def copy(ctx, rule, f, I, R, dst, lo, hi, src=None, slo=None, perm=None, value=None, what='', pre=(), m=None):
    xs = dest_stores(I, dst.root)
    if not xs:
        if not I.unknown and not [e for e in events(I.nodes)]: ctx.violation(rule, f, what + ': nothing is written')
        else: ctx.unk(rule, what)
        return
    alt = [x for x in xs if branch(x, list(pre) + [tm.lt0(sub(a, b), True) for a, b in zip(lo, hi)])] if len(xs) > 1 else []
    for x in alt: ctx.unk(rule, what + ': one of several alternatives, ' + tm.show(x.path[0])[:100])
    if len(alt) == len(xs): return
    got = [covers(ctx, rule, f, I, R, x, dst, lo, hi, src, slo, perm, value, what, pre, m) for x in xs if x not in alt]
    all_components(ctx, rule, f, got, dst.vd)
def check(ctx):
    P = ctx.program('probe_arr.cc'); TH = LV(T('this')); A = lambda i: LV(T('arg', i)); n = 0
    leq = lambda a, b: [tm.le0(sub(x, y), True) for x, y in zip(a, b)]; lt = lambda a, b: [tm.lt0(sub(x, y), True) for x, y in zip(a, b)]; av = lambda i, d: [argc(i, 'm_data', k) for k in range(d)]
    Z = lambda d: [ZERO] * d
    def owned(d): return [T('truth', thisf('m_owns_data'))]
    for f in P.by.get('NDVecArray::fill', []):
        _, d, vd = dims(ctx, f); R = Regions(ctx, base(ctx)); I = ctx.run(f, R); s, e, sh = av(0, d), av(1, d), shape(TH, d); n += 1
        ok = lt(s, e) + leq(e, sh)
        copy(ctx, 'fill sets every element of the region', f, I, R, array(TH, d, vd), s, e, value=argc(2), what='%d axes' % d, pre=ok)
        refuses(ctx, f, I, ok, [('region ends beyond axis %d' % i, lt(s, e) + [tm.lt0(sub(sh[i], e[i]), True)]) for i in range(d)], 'fill, %d axes' % d)
    for f in P.by.get('NDVecArray::operator=', []):
        _, d, vd = dims(ctx, f); R = Regions(ctx, base(ctx)); t = P.ty(f['params'][0]['t'])
        if 'NDVecArray' in t:
            I = ctx.run(f, R); src = A(0); sh = shape(src, d); n += 1
            dst = cur(I, TH, d, vd)
            copy(ctx, 'assignment copies every element', f, I, R, dst, Z(d), sh, src=array(src, d, vd), slo=Z(d), what='%d axes' % d, pre=owned(d))
            for i in range(d): ctx.equal('assignment takes over the shape', f, I.read(LV(T('this'), ('m_shape', 'm_data', num(i)))), sh[i], 'axis %d' % i)
            v = I.read(TH.sub('m_data'))
            if v is T('ld', T('arg', 0), ('m_data',)) or v is T('ld', src.root, src.path + ('m_data',)): ctx.violation('copies share no storage', f, 'the copy refers to the storage of its source')
            else: ctx.ok('copies share no storage', tm.show(v))
            refuses(ctx, f, I, owned(d), [('target is a view', [notb(owned(d)[0])])], 'assignment')
        else:
            I = ctx.run(f, R); sh = shape(TH, d); n += 1; copy(ctx, 'assigning a value sets every element', f, I, R, array(TH, d, vd), Z(d), sh, value=argc(0), what='%d axes' % d, pre=lt(Z(d), sh))
            refuses(ctx, f, I, lt(Z(d), sh), [], 'fill with a value')
    for f in P.by.get('NDVecArray::NDVecArray', []):
        _, d, vd = dims(ctx, f); ts = [P.ty(p['t']) for p in f['params']]
        if len(ts) == 1 and 'NDVecArray' in ts[0] and '&&' not in ts[0]:
            R = Regions(ctx, base(ctx)); I = ctx.run(f, R); sh = shape(A(0), d); dst = cur(I, TH, d, vd); n += 1
            copy(ctx, 'a copy has every element', f, I, R, dst, Z(d), sh, src=array(A(0), d, vd), slo=Z(d), what='%d axes' % d)
            for i in range(d): ctx.equal('a copy has the shape', f, I.read(LV(T('this'), ('m_shape', 'm_data', num(i)))), sh[i], 'axis %d' % i)
            v = I.read(TH.sub('m_data')); ctx.require('copies share no storage', f, True if v.op == 'ptr' and v.args[0].op == 'new' else False if v.op == 'ld' and v.args[0] is T('arg', 0) else None, 'storage %s' % tm.show(v))
            ow = I.read(TH.sub('m_owns_data')); ctx.require('copies own their storage', f, decide.same(ow, TRUE), 'owns its data: %s' % tm.show(ow))
        elif len(ts) == 2 and 'Vector' in ts[0] or len(ts) == 2 and d == 1:
            R = Regions(ctx, base(ctx)); I = ctx.run(f, R); sh = [I.read(LV(T('this'), ('m_shape', 'm_data', num(i)))) for i in range(d)]; n += 1
            copy(ctx, 'a new array holds the value everywhere', f, I, R, cur(I, TH, d, vd), Z(d), sh, value=argc(1), what='%d axes' % d, pre=lt(Z(d), sh))
    for f in P.by.get('NDVecArray::fill_from', []):
        _, d, vd = dims(ctx, f); R = Regions(ctx, base(ctx))
        if len(f['params']) == 4:
            I = ctx.run(f, R); s, e, o = av(1, d), av(2, d), av(3, d); sh, ssh = shape(TH, d), shape(A(0), d); end = [add(o[i], sub(e[i], s[i])) for i in range(d)]; ok = lt(s, e) + leq(e, ssh) + leq(end, sh); n += 1
            copy(ctx, 'copied region', f, I, R, array(TH, d, vd), o, end, src=array(A(0), d, vd), slo=s, what='%d axes' % d, pre=ok)
            refuses(ctx, f, I, ok, [('source region ends beyond axis %d' % i, lt(s, e) + [tm.lt0(sub(ssh[i], e[i]), True)]) for i in range(d)] + [('target region ends beyond axis %d' % i, lt(s, e) + [tm.lt0(sub(sh[i], end[i]), True)]) for i in range(d)], 'copied region')
        else:
            I = ctx.run(f, R)
            if not stores(I.nodes) and I.st.dead: continue    # the variants that are not implemented throw
            o = av(1, d); m = argc(0, 'm_shape', 'm_data', 0); end = [add(o[i], ONE) for i in range(d - 1)] + [add(o[-1], m)]; ok = leq(end, shape(TH, d)) + [tm.le0(sub(ONE, m), True), T('truth', thisf('m_owns_data')), T('truth', argc(0, 'm_owns_data'))]; n += 1
            src1 = array(A(0), 1, vd); src = Layout(src1.root, ZERO, [ZERO] * (d - 1) + [num(vd)], vd)
            copy(ctx, 'copied column', f, I, R, array(TH, d, vd), o, end, src=src, slo=Z(d), what='%d axes' % d, pre=ok, m={argc(0, 'm_offset'): ZERO})
            refuses(ctx, f, I, ok, [('column ends beyond the array', ok[d:] + [tm.lt0(sub(shape(TH, d)[-1], end[-1]), True)])] + [('column lies beside the array, axis %d' % i, ok[d:] + [tm.le0(sub(shape(TH, d)[i], o[i]), True)]) for i in range(d - 1)], 'copied column')
    for f in P.by.get('NDVecArray::resize', []):
        _, d, vd = dims(ctx, f); I = ctx.run(f, Regions(ctx, base(ctx))); n += 1
        refuses(ctx, f, I, owned(d) + ([tm.lt0(neg(argc(0, 'm_data', i)), True) for i in range(d)] if len(f['params']) == 2 else []), [('array is a view', [notb(owned(d)[0])])], 'resize')
    for f in P.by.get('NDVecArray::clear', []):
        _, d, vd = dims(ctx, f); I = ctx.run(f, Regions(ctx, base(ctx))); n += 1; refuses(ctx, f, I, owned(d), [('array is a view', [notb(owned(d)[0])])], 'clear'); root = T('deref', thisf('m_data'))
        for x in dest_stores(I, root):
            L = [l for t, l in nest(I.nodes, x) if t == 'loop']; ctx.equal('clear sets every element to zero', f, x.val, ZERO, 'value', ln=x.ln)
            if len(L) == 1 and L[0].trips is not None and len(x.path) == 1: ctx.equal('clear sets every element to zero', f, tm.subst(x.path[0], {L[0].K: ZERO}), ZERO, 'first', ln=x.ln); ctx.equal('clear sets every element to zero', f, tm.subst(x.path[0], {L[0].K: L[0].trips}), T('ld', root, ('#size',)), 'end', ln=x.ln)
            else: ctx.unk('clear sets every element to zero', repr(x)[:100])
    for f in P.by.get('NDVecArray::ShapeAllowsConcatenation', []):
        _, d, vd = dims(ctx, f)
        if len(f['params']) != 3: continue
        n += 1
        for ax in range(d):
            I = ctx.run(f, None, [None, None, num(ax)]) if False else ctx.run(f)
            ctx.equal('shapes must agree off the axis', f, tm.subst(I.rvret, {argc(2): num(ax)}), andb(*[eqt(argc(0, 'm_data', i), argc(1, 'm_data', i)) for i in range(d) if i != ax]), 'axis %d of %d' % (ax, d), hi=3)
    for f in P.by.get('NDVecArray::Append', []):
        _, d, vd = dims(ctx, f); ta = f.get('ta') or []
        if len(f['params']) != 1 or not ta: continue
        ax = int(re.sub('UL?', '', ta[0])); R = Regions(ctx, base(ctx)); I = ctx.run(f, R)
        if I.st.dead and not stores(I.nodes):
            ctx.ok('append along other axes is refused', 'axis %d' % ax); continue
        n += 1
        # the enlarged array and the place of the new elements
        sh, ssh = shape(TH, d), shape(A(0), d); lo = [sh[i] if i == ax else ZERO for i in range(d)]; hi = [add(sh[i], ssh[i]) if i == ax else sh[i] for i in range(d)]; same = [eqt(sh[i], ssh[i]) for i in range(d) if i != ax]
        m = {ssh[i]: sh[i] for i in range(d) if i != ax}
        for i in range(d): ctx.equal('appending adds up the lengths', f, I.read(LV(T('this'), ('m_shape', 'm_data', num(i)))), hi[i], 'axis %d' % i, assume=same)
        dst = cur(I, TH, d, vd); dst = Layout(dst.root, dst.off, [tm.subst(t, m) for t in dst.st], vd)
        xs = dest_stores(I, dst.root)
        if not xs: ctx.unk('appended elements', 'no stores'); continue
        for L in R.all: L.lo = [tm.subst(t, m) for t in L.lo]; L.hi = [tm.subst(t, m) for t in L.hi]
        got = [covers(ctx, 'appended elements', f, I, R, x, dst, lo, hi, src=array(A(0), d, vd), slo=[ZERO] * d, what='%d axes' % d, pre=same + owned(d), m=m) for x in xs]; all_components(ctx, 'appended elements', f, got, vd)
        refuses(ctx, f, I, owned(d) + same, [('array is a view', [notb(owned(d)[0])])] + [('lengths differ along axis %d' % i, [notb(eqt(sh[i], ssh[i]))]) for i in range(d) if i != ax], 'append')
    for f in P.by.get('NDVecArray::SwapAxes', []):
        _, d, vd = dims(ctx, f); ta = [int(re.sub('UL?', '', x)) for x in f['ta'][:2]]; R = Regions(ctx, base(ctx)); I = ctx.run(f, R); n += 1; sh = shape(TH, d); perm = list(range(d)); perm[ta[0]], perm[ta[1]] = perm[ta[1]], perm[ta[0]]
        dst = cur(I, A(0), d, vd); lo = Z(d); hi = [sh[perm[i]] for i in range(d)]
        for i in range(d): ctx.equal('axes of the result are swapped', f, I.read(LV(T('arg', 0), ('m_shape', 'm_data', num(i)))), hi[i], 'axis %d' % i)
        copy(ctx, 'swapped copy', f, I, R, dst, lo, hi, src=array(TH, d, vd), slo=lo, perm=perm, what='axes %s' % ta, pre=[T('truth', argc(0, 'm_owns_data'))])
    ctx.atleast('copying operations', n, 12)
