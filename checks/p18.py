"""Value graph of the interpolation routine: the total contribution stored for every component of every output sample is
compared with the tensor-product stencil sum built from the kernel weights, for symbolic positions, strides and data;
at every call site the buffer handed to the routine must hold zeros (it is added to)."""
from common import *
import p17
MIN_OBLIGATIONS = 10
def ipart(x): return T('trunc', x)
def enclosing_loops(nodes, target, acc=()):
    for n in nodes:
        if n is target: return acc
        if n.kind == 'if': r = enclosing_loops(n.a, target, acc) or enclosing_loops(n.b, target, acc)
        elif n.kind == 'loop': r = enclosing_loops(n.body, target, acc + (n,))
        elif n.kind in ('call', 'block'): r = enclosing_loops(n.body, target, acc)
        else: r = None
        if r is not None: return r
    return None
def leaves(v): return leaves(v.args[1]) + leaves(v.args[2]) if v.op == 'ite' else [v]
def stale(q):
    '''content left by an earlier interpolation / iteration, or never initialised'''
    return q.op in ('mu', 'hv', 'undef') or (q.op == 'proj' and stale(q.args[0]))
def check(ctx):
    P = ctx.program(); ks = {f['qs'].rsplit('::', 1)[0].split('::')[-1]: f for f in p17.kernels(ctx)}
    fs = ctx.fn('Interpolation::interpolate', all=True); ctx.atleast('interpolation instances', len(fs), 2)
    for f in fs:
        cal = reach(P, f)
        kn = [k for k in ks if ks[k]['id'] in cal]
        if not kn: raise Broken('kernel of %s not found' % f['qn'][:120])
        kf = ks[kn[0]]; S = p17.support(ctx, kf)
        if S is None: raise Broken('weights of %s are not understood' % kn[0])
        vd = int(re.findall(r'(\d+)>', P.ty(f['params'][0]['t']))[0])
        ctx.funcs.add(kf['qn'])
        def kern(I, h, this, args, ln, n=2 * S):
            b = I.rv(args[1]); fr = I.rv(args[0]); ctx.sites += 1
            for i in range(n): I.write(deref(padd(b, num(i))), T('kw', num(i), fr), ln, note=False)
            return T('undef', 'void')
        I = ctx.run(f, lambda h: kern if h['id'] == kf['id'] else 'inline')
        arr = LV(T('arg', 0)); out = LV(T('arg', 1)); k = T('sym', 'k'); N = argc(5)
        dbuf = T('deref', argc(0, 'm_data')); obuf = T('deref', argc(1, 'm_data'))
        # expected value of component cv of sample k
        def W(o, fr): return T('kw', num(o), fr)
        pr, pz = argc(2, 'm_data', 0), argc(2, 'm_data', 1); pt = add(argc(3), mul(k, argc(4)))
        ir, iz, it = ipart(pr), ipart(pz), ipart(pt); fr, fz, ft = sub(pr, ir), sub(pz, iz), sub(pt, it)
        s0, s1 = argc(0, 'm_strides', 'm_data', 0), argc(0, 'm_strides', 'm_data', 1); s2 = argc(0, 'm_strides', 'm_data', 2); off = argc(0, 'm_offset')
        def spec(cv):
            tot = ZERO; o = S - 1
            for a in range(2 * S):
                for b in range(2 * S):
                    for c in range(2 * S):
                        loc = add(off, add(mul(add(ir, num(a - o)), s0), add(mul(add(iz, num(b - o)), s1), add(mul(num(vd), add(it, num(c - o))), num(cv)))))
                        tot = add(tot, mul(mul(W(a, fr), W(b, fz)), mul(W(c, ft), T('ld', dbuf, (loc,)))))
            return tot
        total = {cv: ZERO for cv in range(vd)}; loopof = {}; unknown = []; seen = 0
        def pos(t): return lambda r: decide.Fraction(r.randint(12, 60), r.choice([1, 2, 3, 4]))
        dom = {pr: pos(0), pz: pos(0), argc(3): pos(0), argc(4): lambda r: decide.Fraction(r.randint(1, 9), 4), s2: decide.Fraction(vd), k: lambda r: decide.Fraction(r.randint(0, 5)), N: lambda r: decide.Fraction(r.randint(6, 9))}
        for i, v in ((argc(2, 'm_data', 0), 0),): pass
        for st in stores(I.nodes):
            if st.root is not obuf:
                if st.root.op in ('arg', 'deref', 'glob') and st.root not in (T('arg', 1),): ctx.violation('inputs unchanged', f, 'stores to %r' % st, st.ln)
                continue
            if len(st.path) == 0 or not isinstance(st.path[0], T): continue
            lp = enclosing_loops(I.nodes, st) or ()
            sub_ = {}
            if len(lp) == 1 and lp[0].trips is not None:
                ctx.equal('all samples are filled', f, lp[0].trips, N, 'trip count of the sample loop', ln=st.ln, dom=dom); sub_ = {lp[0].K: k}
            else: unknown.append('loops around the store'); continue
            if lp[0].breaks: unknown.append('loop with breaks')
            idx = tm.subst(st.path[0], sub_); cv = const(sub(idx, mul(num(vd), k)))
            if cv is None or int(cv) not in total:
                v = decide.same(T('mod', idx, num(vd)), ZERO, dom=dom)
                ctx.violation('every sample has its own slot', f, 'stores sample k at %s' % tm.show(idx), st.ln) if len(tm.atoms(idx) - {k}) == 0 else unknown.append('store index ' + tm.show(idx)[:80]); continue
            cv = int(cv); val = tm.subst(st.val, sub_); old = tm.subst(st.old, sub_); seen += 1
            d = sub(val, old); loopof[cv] = lp[0]
            total[cv] = add(total[cv], d) if old in tm.atoms(val) or decide.has_opaque(d) is False else val
        if unknown or not seen: ctx.unk('stencil sum', f['qn'][:100] + str(unknown[:2])); continue
        for cv in range(vd):
            L = loopof.get(cv); what = 'component %d of sample k (%s kernel, %d stencil points)' % (cv, kn[0], (2 * S) ** 3)
            if L is not None and any(a.op in ('mu', 'hv') for a in tm.atoms(total[cv])):
                # weights or sums carried from sample to sample: apply the recurrence to its start value
                d2 = dict(dom); d2[argc(4)] = lambda r: decide.Fraction(r.randint(1, 9), r.choice([4, 4, 100, 10 ** 5, 10 ** 7]))
                for kk in range(3): ctx.equal('stencil sum', f, iterate(L, tm.subst(total[cv], {k: L.K}), kk), tm.subst(spec(cv), {k: num(kk)}), what.replace('sample k', 'sample %d' % kk), ints=lambda t: t in (s0, s1, off), dom=d2, n=60)
            else: ctx.equal('stencil sum', f, total[cv], spec(cv), what, ints=lambda t: t in (s0, s1, off), dom=dom, n=60)
        # output holds num_samples entries before it is written
        ctx.equal('output is resized', f, I.read(LV(T('arg', 1), ('m_shape', 'm_data', ZERO))), N, 'length of the output')
    # ---- call sites: the buffer is zero and the arguments' buffer is not read before
    calls = 0
    users = sorted({g['qn']: g for g in P.d['funcs'] if any(c in ('Interpolation::interpolate',) for c in callees(P, g))}.items())
    for qn, g in users:
        if g['qs'].startswith('Interpolation::'): continue
        hits = []
        def pol(h):
            q = h['qs']
            if q == 'Interpolation::interpolate':
                def cb(I, h, this, args, ln):
                    b = I.lv(args[1]); d = deref(I.read(b.sub('m_data'))); hits.append((I.read(LV(d.root, d.path + (T('sym', 'j'),))), ln, I.curfn())); I.havoc(LV(d.root, d.path)); return T('undef', 'void')
                return cb
            if q == 'IteratorUtils::index_loop_over_elements':
                def cb(I, h, this, args, ln):
                    return cells(I, I.rv(args[2]), lambda: [I.lv(T('sym', 'cell'))], ln)
                return cb
            if q.startswith(('ChunkIndex::', 'ChunkCache::', 'RStarTree::')) or q.endswith('::fill_from'): return 'opaque'
            return 'inline'
        if g.get('cls') == 'lambda': continue
        try: I = ctx.run(g, pol)
        except interp.Budget: ctx.unk('buffer is cleared', qn[:100]); continue
        for v, ln, fn in hits:
            calls += 1
            lv = leaves(v)
            if any(stale(q) for q in lv): ctx.violation('buffer is cleared before it is accumulated into', fn or g, 'element j of the buffer holds %s when the interpolation adds to it' % tm.show(v)[:200], ln)
            elif decide.has_opaque(v): ctx.unk('buffer is cleared', tm.show(v)[:200])
            else: ctx.equal('buffer is cleared before it is accumulated into', fn or g, v, ZERO, 'element j at the call in ' + g['qs'], ln=ln)
    ctx.atleast('interpolate call sites', calls, 2)
