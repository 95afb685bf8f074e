"""P15: contributions of current segments add up, and are proportional to charge and length. The integration of a segment is interpreted with the
evaluation of the sampled function replaced by its specification over distinct symbols, one per component and evaluated point: the value added to an
output sample is then a linear form whose coefficients are the weights of the integrand at the evaluated points."""
from green import *
TECHNIQUE = 'abstract interpretation with the evaluation of the sampled function as a symbolic summary; linear forms of the added values'
def stub(calls):
    def acc(I, h, this, args, ln):
        def view(v):
            v = I.rv(v)
            p = v.args[0] if v.op == 'span' else None
            if p is None:
                for x in tm.atoms(v) | {v}:
                    if x.op == 'span': p = x.args[0]
            if p is None and v.op == 'mk' and len(v.args) > 1:
                p = v.args[1] if v.args[1].op in ('ptr', 'padd') else None
            return [I.read(deref(padd(p, num(i)))) for i in range(2)] if p is not None else None
        x, src = view(args[0]), view(args[4]); t0, dt, n, res, w = (I.rv(args[i]) for i in (1, 2, 3, 5, 6))
        if x is None or src is None or const(n) is None: I.unknown.append(('accumulate', 'arguments', ln)); return T('undef', 'void')
        calls.append((x, t0, dt, const(n)))
        for k in range(int(const(n))):
            lv = deref(padd(res, num(k))); v = I.read(lv)
            for c in range(2): v = add(v, mul(mul(T('sym', 'G', num(c), x[0], x[1], add(t0, mul(num(k), dt))), src[c]), w))
            I.write(lv, v, ln, note=False)
        return T('undef', 'void')
    return acc
# segments: start, end (through the axis in the x-y plane, or parallel to it), times
F = Fr
SEGS = {'outwards': ((3, 4, -2), (F(33, 5), F(44, 5), 1), 0, F(9, 2)), 'short': ((-3, 4, 7), (F(-27, 10), F(18, 5), F(15, 2)), F(5, 4), F(3, 2)), 'vertical': ((F(6, 5), F(-8, 5), -3), (F(6, 5), F(-8, 5), 4), -2, F(4, 3)),
        'backwards': ((-10, 0, 2), (-6, 0, -1), F(1, 2), 4), 'horizontal': ((0, 5, 1), (0, F(23, 2), 1), 1, 7), 'on the axis': ((0, 0, -4), (0, 0, 3), 0, 3), 'turning': ((3, 4, -2), (5, 12, 3), 0, 1), 'passing by': ((-4, 3, 0), (12, -5, F(1, 2)), 2, F(11, 4)), 'fast': ((3, 4, 0), (30, 40, -50), -1, F(-1, 2))}
def check(ctx):
    P = ctx.program('probe_green.cc'); deep = ctx.tier == 'thorough'; work = []
    for s in SEGS:
        for w in ((0, 1, 12, 13), (3, F(1, 2), 6, 6), (-4, F(3, 4), 9, 9), (F(1, 3), F(5, 2), 4, 6), (20, 1, 3, 3), (-30, 1, 5, 5), (2, 1, 0, 2)): work.append((s, w))
    work.append(('blocks', None)); work += [(x, None) for x in ('blocks2', 'blocks3', 'blocks4')]
    def run(g, seg, win, q, wt, tag='init'):
        m = g.m; (a, b, t0, t1) = seg; s0, ds, n, size = win; calls = []
        m.I.policy = lambda h: stub(calls) if h['qs'] == 'CylindricalGreensFunction::accumulate_inner_product' else 'inline'
        init = [T('sym', tag, num(i)) for i in range(size)]; fk = m.save(); o, out = m.out(size)
        m.call('seg', 0, g=g.g, p=[num(x) for x in a + b], t0=num(t0), t1=num(t1), q=q, s0=num(s0), ds=num(ds), n=n, size=size, **{'in': init}, out=o, wt=wt)
        r = None if m.I.st.dead or m.vague else [m.I.read(x) for x in out]; why = m.why() if m.I.st.dead else str(m.I.unknown[-1:])[:200] if m.vague else ''; dead = m.I.st.dead
        m.load(fk); return r, init, calls, why, dead
    def weights(form, q, wt):
        """{(component, r, z, t): weight} when the form is q * wt * (linear in the evaluated points), else None and the odd monomial"""
        r = {}
        for mm, c in tm.pd(form).items():
            G = [x for x, p in mm if x.op == 'sym' and x.args[0] == 'G' for _ in range(p)]; rest = [x for x, p in mm for _ in range(p) if not (x.op == 'sym' and x.args[0] == 'G')]
            if len(G) != 1 or sorted(map(id, rest)) != sorted(map(id, (q, wt))): return None, mm
            a = [const(x) for x in G[0].args[1:]]
            if None in a: return None, mm
            r[tuple(a)] = r.get(tuple(a), 0) + c
        return r, None
    def one(w):
        s, win = w
        if s == 'blocks': segs = ((3, 4, 0), (63, 84, 10), 0, 130); win = (5, 40, 5, 5)
        elif s == 'blocks2': segs = ((6, 8, 0), (9, 12, 10), 0, 3); win = (F(1, 2), 1, 215, 215)
        elif s == 'blocks3': segs = ((3, 4, 0), (63, 84, 10), 0, 100); win = (5, 50, 3, 3)        # a single point in the last block
        elif s == 'blocks4': segs = ((6, 8, 0), (9, 12, 10), 0, 3); win = (F(1, 2), 1, 101, 101)  # a single sample in the last block
        else: segs = SEGS[s]
        ctx.assumptions = ['the evaluation of the sampled function (P16) is replaced by its specification']
        if not hasattr(ctx, 'g15'): ctx.g15 = Green(ctx, P, [((0, 0, 0), (2, 2, 2), 0)], 1)
        g = ctx.g15; m = g.m; tol = F(1, 5000)
        if not g.ok: return
        m.limit = 300; q = T('sym', 'charge'); wt = T('sym', 'weight'); a, b, t0, t1 = segs; s0, ds, n, size = win
        what = 'segment %s..%s in the time %s..%s; %d samples from %s in steps of %s' % (tuple(map(str, a)), tuple(map(str, b)), t0, t1, n, s0, ds)
        try: r, init, calls, why, dead = run(g, segs, win, q, wt)
        except interp.Budget: ctx.unk('segment', what); return
        if r is None:
            if dead: ctx.violation('the segment is evaluated', m.last, what + ': refused: ' + why)
            else: ctx.unk('segment', what + ': ' + why)
            return
        W = []
        for k in range(size):
            if k >= n: ctx.equal('only the requested samples are changed', m.last, r[k], init[k], '%s: element %d' % (what, k)); continue
            d = sub(r[k], init[k]); op = [x for mm in tm.pd(d) for x, _ in mm if x.op != 'sym' or x.args[0] == 'G' and any(const(y) is None for y in x.args[1:])]
            if op: ctx.unk('sample', what + ': ' + tm.show(op[0])[:120]); return
            x, odd = weights(d, q, wt)
            if x is None: ctx.violation('what is added is proportional to the charge', m.last, '%s: sample %d: adds %s' % (what, k, tm.show(d)[:200])); return
            ctx.ok('what is added is proportional to the charge', what)
            bad = [p for p in x if p[3] < -tol]
            if bad: ctx.violation('no contribution before the function starts', m.last, '%s: sample %d takes the function at the time %s' % (what, k, float(bad[0][3]))); return
            ctx.ok('no contribution before the function starts', what); W.append(x)
        # every evaluated point is where the current is at this time, and the current is resolved into its components there
        T_ = t1 - t0; vel = [F(y - x) / T_ for x, y in zip(a, b)]
        for k in range(n):
            cmp = {}
            for p, x in W[k].items(): cmp.setdefault(p[1:], {})[p[0]] = x
            for (r_, z_, t_), d in cmp.items():
                tp = s0 + k * ds - t_; pos = [x + v * (tp - t0) for x, v in zip(a, vel)]; rr = float(pos[0] ** 2 + pos[1] ** 2) ** .5; R = 'the function is evaluated where the current is'; e = 1e-3 * (1 + abs(float(r_)) + abs(float(z_)))
                if not t0 - tol <= tp <= t1 + tol or abs(rr - float(r_)) > e or abs(float(pos[2] - z_)) > e:
                    ctx.violation(R, m.last, '%s: sample %d takes the function at r = %.3f, z = %.3f, t = %.3f: the current is at r = %.3f, z = %.3f then' % (what, k, float(r_), float(z_), float(t_), rr, float(pos[2]))); return
                ctx.ok(R, what); R = 'the current is resolved into its radial and vertical component'
                if rr > 1e-6:
                    jr = float(pos[0] * vel[0] + pos[1] * vel[1]) / rr; jz = float(vel[2]); wr, wz = float(d.get(0, 0)), float(d.get(1, 0))
                    if abs(wr * jz - wz * jr) > 1e-3 * (1 + abs(wr) + abs(wz)) * (1 + abs(jr) + abs(jz)): ctx.violation(R, m.last, '%s: sample %d: the components at r = %.3f, z = %.3f have the weights %.4f, %.4f: the current is %.4f, %.4f there' % (what, k, float(r_), float(z_), wr, wz, jr, jz)); return
                    ctx.ok(R, what)
        # integrals of test functions along the segment, for the samples that see all of it
        rad = lambda p: F(int(round(1000000 * ((p[0] ** 2 + p[1] ** 2) ** .5))), 1000000); r0, r1 = rad(a), rad(b); vr = (r1 - r0) / T_
        for k in range(n):
            ts = s0 + k * ds
            if ts < t1 or not W[k]: 
                if ts >= t1: ctx.violation('the whole segment contributes', m.last, '%s: sample %d is not changed' % (what, k)); return
                if ts < t0 and W[k]: ctx.violation('no contribution before the function starts', m.last, '%s: sample %d, at %s, is changed' % (what, k, ts)); return
                continue
            for c, v in ((0, vr), (1, vel[2])):
                if c == 0 and s in ('turning', 'passing by'): continue
                tot = lambda phi: sum(x * phi(p[1], p[2], p[3]) for p, x in W[k].items() if p[0] == c); ext = 1 + max(abs(x) for x in (r0, r1, a[2], b[2], ts - t0, ts - t1)); z0 = a[2]
                for nm, phi, I in (('1', lambda r, z, t: 1, T_), ('r', lambda r, z, t: r, T_ * (r0 + r1) / 2), ('z', lambda r, z, t: z, T_ * (a[2] + b[2]) / 2), ('t', lambda r, z, t: t, T_ * (ts - (t0 + t1) / 2))):
                    got = tot(phi); want = -v * I; R = 'what is added is the integral along the segment'
                    if nm == 'r' and s in ('turning', 'passing by', 'on the axis'): continue
                    if abs(got - want) > tol * ext * (1 + abs(T_)) * (1 + abs(v)): ctx.violation(R, m.last, '%s: sample %d: the integral of %s for component %d is %.4f, must be %.4f' % (what, k, nm, c, float(got), float(want))); return
                    ctx.ok(R, what)
        # a point of the segment counts for every sample after it alike
        per = {}
        for k in range(n):
            for p, x in W[k].items(): per.setdefault((p[0], p[1], p[2], s0 + k * ds - p[3]), {})[k] = x
        R = 'a point of the segment counts alike for every sample after it'
        for p, d in per.items():
            tp = p[3]; ks = [k for k in range(n) if s0 + k * ds > tp + tol]
            x = d[min(d)]; odd = [k for k in ks if abs(d.get(k, 0) - x) > tol]
            if abs(x) < tol: continue
            if odd: ctx.violation(R, m.last, '%s: the point at the time %.3f has the weight %.4f in sample %d, and %.4f in sample %d' % (what, float(tp), float(x), min(d), float(d.get(odd[0], 0)), odd[0])); return
            ctx.ok(R, what)
        if s.startswith('blocks'): return
        # two collinear segments
        if T_ >= 2 and T_ % 1 == 0 and n:
            mid = t0 + (T_ // 2); pm = tuple(x + v * (mid - t0) for x, v in zip(a, vel)); R = 'a segment contributes what its two parts contribute'
            A, i1, _, w1, _ = run(g, (a, pm, t0, mid), win, q, wt); B, i2, _, w2, _ = run(g, (pm, b, mid, t1), win, q, wt)
            if A is None or B is None: ctx.unk(R, what + w1 + w2); return
            for k in range(n):
                if s0 + k * ds < t1: continue
                parts = [weights(sub(x[k], y[k]), q, wt)[0] for x, y in ((A, i1), (B, i2))]
                if None in parts: ctx.unk(R, what); return
                for c in (0, 1):
                    for nm, phi in (('1', lambda r, z, t: 1), ('r', lambda r, z, t: r), ('z', lambda r, z, t: z), ('t', lambda r, z, t: t)):
                        x, y = (sum(u * phi(*p[1:]) for d in l for p, u in d.items() if p[0] == c) for l in (parts, [W[k]]))
                        if abs(x - y) > tol * (1 + abs(x)) * (1 + T_): ctx.violation(R, m.last, '%s: sample %d: the two halves add %.4f to component %d (for the function %s), the segment %.4f' % (what, k, float(x), c, nm, float(y))); return
                        ctx.ok(R, what)
    parallel(ctx, work, one)
    ctx.atleast('obligations', len(ctx.oblig) + len(ctx.viol), 100)
    ctx.rule = 'the linear form that is added to an output sample, over the evaluated points of the sampled function'
