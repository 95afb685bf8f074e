"""Value graph of the downsampling routines per axis, for symbolic start, shape and factor: announced start, shape, loop range, source and
destination index of the copied element are compared with the terms of the coarse grid (multiples of the factor counted from zero)."""
from common import *
MIN_OBLIGATIONS = 15
def coef(t, a):
    r = {}
    for m, c in tm.pd(t).items():
        if (a, 1) in m: r[tuple(x for x in m if x != (a, 1))] = c
    return tm.norm(tm._mk(r))
def check(ctx):
    P = ctx.program()
    def ceil(a, b): return T('idiv', add(a, sub(b, ONE)), b)
    def spec(s, e, f): # first and end of the coarse indices in [s, e)
        a, b = ceil(s, f), ceil(e, f); return a, b
    for f in ctx.fn('Downsampling::downsample', all=True):
        got = []
        def pol(h):
            q = h['qs']
            if q.startswith('IteratorUtils::index_loop_over_'):
                def cb(I, h, this, args, ln):
                    d = int(re.findall(r'(\d+)>', P.ty(h['params'][0]['t']))[-1]); rng = [I.rv(a) for a in args[:2]]
                    cell = I.lv(T('sym', 'cell')); n0 = len(I.out)
                    r = cells(I, I.rv(args[-1]), lambda: [cell], ln); got.append((d, rng, I.out[n0:], ln)); return r
                return cb
            if q.endswith('::resize'):
                def rs(I, h, this, args, ln):
                    v = I.rv(args[0]); e = I.opaque_call(h, this, args, ln); I.write(this.sub('m_shape'), v, ln, note=False); return e
                return rs
            return 'inline'
        I = ctx.run(f, pol); d = int(re.findall(r', (\d+), \d+>', P.ty(f['params'][0]['t']))[0]); vd = int(re.findall(r'(\d+)>', P.ty(f['params'][0]['t']))[0])
        S = [argc(1, 'm_data', i) for i in range(d)]; F = [argc(2, 'm_data', i) for i in range(d)]; N = [argc(0, 'm_shape', 'm_data', i) for i in range(d)]
        pos = [tm.le0(sub(ONE, x), True) for x in F]
        rs = events(I.nodes, 'NDVecArray::resize')
        for i in range(d):
            a, b = spec(S[i], add(S[i], N[i]), F[i]); w = 'axis %d' % i
            # (e - 1) / f + 1 for e >= 1; an empty input has no coarse index
            ne = pos + [tm.le0(sub(ONE, N[i]), True)]
            ctx.equal('announced start', f, I.read(LV(T('arg', 4), ('m_data', num(i)))), a, w, assume=pos)
            if rs: ctx.equal('output shape', f, vec(rs[-1].args[0], i), sub(minmax('max', b, a), a), w, assume=ne, ln=rs[-1].ln)
        if len(got) != 1: ctx.unk('loop over the coarse indices', f['qn'][:80]); continue
        dd, (lo, hi), body, ln = got[0]
        # the element copied
        cell = T('sym', 'cell'); C = [proj(cell, ('m_data', num(i))) for i in range(d)]
        ob = [x for x in stores(body) if x.root.op not in ('local', 'tmp')]
        st = {}
        outn = T('arg', 3)
        if not ob: ctx.violation('coarse element is copied', f, 'the loop body stores nothing', ln); continue
        strs = None
        for x in ob:
            # destination strides/offset: the fields of the (resized) output array
            lds = [a for a in tm.atoms(x.path[-1]) if a.op in ('ld', 'proj') and 'm_strides' in str(a.args[-1])]
            o = [a for a in tm.atoms(x.path[-1]) if a.op in ('ld', 'proj') and 'm_offset' in str(a.args[-1])]
            if not o: ctx.unk('coarse element is copied', repr(x)[:200]); continue
            base = o[0]; mk = lambda *p: T(base.op, base.args[0], base.args[1][:-1] + tuple(num(z) if isinstance(z, int) else z for z in p))
            a0 = [spec(S[i], add(S[i], N[i]), F[i]) for i in range(d)]; pth = x.path[-1]
            D = [coef(pth, mk('m_strides', 'm_data', i)) for i in range(d)]     # destination index per axis, as a function of the cell
            rest = sub(pth, base)
            for i in range(d): rest = sub(rest, mul(D[i], mk('m_strides', 'm_data', i)))
            k = const(rest)
            if k is None or not 0 <= k < vd:
                ctx.violation('destination of the coarse element', f, 'stores at %s' % tm.show(pth)[:300], x.ln) if not decide.has_opaque(rest) and C[0] in tm.atoms(pth) else ctx.unk('destination of the coarse element', tm.show(pth)[:200]); continue
            for i in range(d):
                w = 'axis %d' % i; ne = pos + [tm.le0(sub(ONE, N[i]), True)]
                ctx.equal('loop covers the coarse elements', f, tm.subst(D[i], {C[i]: vec(lo, i)}), ZERO, 'first destination, ' + w, assume=ne, ln=ln)
                ctx.equal('loop covers the coarse elements', f, tm.minmax('max', tm.subst(D[i], {C[i]: vec(hi, i)}), ZERO), sub(tm.minmax('max', a0[i][1], a0[i][0]), a0[i][0]), 'end of the destination, ' + w, assume=ne, ln=ln)
                ctx.equal('destinations are distinct', f, sub(tm.subst(D[i], {C[i]: add(C[i], ONE)}), D[i]), ONE, w, assume=ne, ln=ln)
            inr = [tm.le0(sub(vec(lo, i), C[i]), True) for i in range(d)] + [tm.lt0(sub(C[i], vec(hi, i)), True) for i in range(d)] + pos + [tm.le0(sub(ONE, N[i]), True) for i in range(d)]
            facts = [c for c in x.pc if not decide.has_opaque(c)]
            if facts: ctx.require('every coarse element is copied', f, decide.holds(andb(*facts), inr, dom={**{z: (lambda r: decide.Fraction(r.randint(1, 2))) for z in F}, **{z: (lambda r: decide.Fraction(r.randint(3, 6))) for z in N}, **{z: (lambda r: decide.Fraction(r.randint(0, 3))) for z in S}}, n=900, hi=5), 'copied only if %s' % tm.show(andb(*facts))[:300], x.ln)
            src = argc(0, 'm_offset')
            for i in range(d): src = add(src, mul(sub(mul(add(D[i], a0[i][0]), F[i]), S[i]), argc(0, 'm_strides', 'm_data', i)))
            ctx.ok('destination of the coarse element', 'component %d' % int(k)); st[int(k)] = x
            lds = [a for a in tm.atoms(x.val) if a.op == 'ld' and a.args[0] is T('deref', argc(0, 'm_data'))]
            if len(lds) != 1 or x.val is not lds[0]: ctx.unk('source of the coarse element', tm.show(x.val)[:200]) if decide.has_opaque(x.val) else ctx.violation('source of the coarse element', f, 'stores %s' % tm.show(x.val)[:200], x.ln); continue
            ctx.equal('source of the coarse element', f, x.val.args[1][0], add(src, num(k)), 'component %d' % int(k), assume=pos, ln=x.ln)
        if set(st) - set(range(vd)): ctx.violation('components', f, 'stores components %s' % sorted(st))
        if not ctx.unknown and set(st) < set(range(vd)) and not ctx.viol: ctx.violation('all components are copied', f, 'only components %s of %d are copied' % (sorted(st), vd))
    for f in ctx.fn('Downsampling::get_downsampled_shape', all=True):
        I = ctx.run(f); d = int(re.findall(r'(\d+)>', P.ty(f['params'][0]['t']))[0])
        for i in range(d):
            s, n, k = [argc(j, 'm_data', i) for j in range(3)]; a, b = spec(s, add(s, n), k)
            ctx.equal('announced shape', f, vec(I.rvret, i), sub(minmax('max', b, a), a), 'axis %d' % i, assume=[tm.le0(sub(ONE, k), True), tm.le0(sub(ONE, n), True)])
