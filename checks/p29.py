"""Recurrences of the shower sampling: start values and the generic step of position, time, depth and charge are compared with the track
x_k = start + k c dt (sin zen cos az, sin zen sin az, cos zen), t_k = k dt, depth_k = sum of density x c dt, charge = interpolated profile
x scaling; sample i and i+1 make up segment i; the stored profile whose energy is closest and whose number was asked for is used, numbers
outside the stored range end in an error, and the file reader fills the profile in file order and stops at its end."""
from common import *
MIN_OBLIGATIONS = 55
S1 = 'showers::Shower1D::'; SC = 'showers::ShowerCreator::'
def dens(I, f, this, args, ln):
    if f['qs'] == 'environment::IceProfile::get_density': return T('dens', *[I.rv(a) for a in args])
    return NotImplemented
def pol(*names):
    o = opaque(*names)
    return lambda f: dens if f['qs'] == 'environment::IceProfile::get_density' else o(f)
def loops(nodes): return [n for n in walk(nodes) if n.kind == 'loop']
def inloop(L, n): return any(x is n for x in walk(L.body))
cc = num(interp.Fraction(299792458)) 
def lightspeed(P):
    for g in P.d['globals']:
        if g['qn'].endswith('constants::c'): return g
def real(t): return t.op in ('K', 'sym') and t.args[0] != 'D'
def sampling(ctx, f):
    I = Interp(ctx.P, pol()); ctx.run(f, I=I); A = lambda i: T('deref', argc(i)); dt = argc(0); R = 'track'
    zen, az = thisf('zenith'), thisf('azimuth'); sn, cs = (lambda x: T('sin', x)), (lambda x: T('cos', x))
    dirs = [mul(sn(zen), cs(az)), mul(sn(zen), sn(az)), cs(zen)]; start = [thisf('start_position', i) for i in range(3)]
    st = [s for s in stores(I.nodes) if s.root in [A(i) for i in range(1, 6)] and s.path[-1:] != ('#size',)]
    gen = [s for s in st if any(inloop(L, s) for L in loops(I.nodes))]; fix = [s for s in st if s not in gen]
    Ls = {id(L): L for s in gen for L in loops(I.nodes) if inloop(L, s)}
    if not gen: raise Broken('no sampling loop in get_shower')
    # c dt from the step along z: whatever the code uses as speed must be the speed of light of the library
    g = lightspeed(ctx.P); c = None
    ds = None
    sizes = {i: I.read(LV(A(i), ('#size',))) for i in range(1, 6)}; pl = lambda *t: plain(*t, memo=psz); psz = {}
    main = [L for L in Ls.values() if all(inloop(L, s) for s in gen)]
    if len(main) != 1: 
        ctx.unk(R, 'samples are filled by %d loops' % len(Ls)); return
    L = main[0]; K = L.K
    speed = SPEED(ctx)
    ds = mul(dt, speed)
    def X(j, e): return add(start[j], mul(e, mul(ds, dirs[j])))
    def canon(t, memo={}):
        """previously stored samples replaced by what the recurrence made them"""
        m = {}
        for a in sorted(tm.atoms(t), key=lambda a: a.depth):
            if a.op == 'proj' and len(a.args[1]) == 1 and isinstance(a.args[1][0], T) and a.args[0].op == 'mu':
                for i in range(1, 5):
                    if any(k[0] is A(i) and v[2] is a.args[0] for k, v in L.carried_keys.items()): m[a] = X(i - 2, a.args[1][0]) if i > 1 else mul(a.args[1][0], dt)
        return tm.subst(t, m) if m else t
    names = {1: 'time', 2: 'x', 3: 'y', 4: 'z', 5: 'charge'}
    for s in gen + fix:
        i = [k for k in range(1, 6) if s.root is A(k)][0]
        if len(s.path) != 1 or not isinstance(s.path[0], T): ctx.unk(R, repr(s)); continue
        idx = s.path[0]
        if i == 1: ctx.equal('time of sample k is k times the step', f, canon(s.val), mul(idx, dt), 'time stored at %s' % tm.show(idx), ln=s.ln, ints=real2)
        elif i < 5: ctx.equal('track moves at the speed of light along the shower direction', f, canon(s.val), X(i - 2, idx), '%s stored at %s' % (names[i], tm.show(idx)), ln=s.ln, ints=real2)
    scale = thisf('charge_excess_profile_scaling'); q = lambda k: thisf('charge_excess_profile', 'charge_excess', k) ; G = lambda k: thisf('charge_excess_profile', 'grammage', k)
    q = lambda k: T('ld', T('this'), ('charge_excess_profile', 'charge_excess', k)); G = lambda k: T('ld', T('this'), ('charge_excess_profile', 'grammage', k)); gsz = thisf('charge_excess_profile', 'grammage', '#size')
    for s in fix:
        if s.root is A(5): ctx.equal('charge is the scaled profile', f, s.val, mul(q(s.path[0]), scale), 'first sample', ln=s.ln, ints=real2)
    # depth: the loop-carried quantity advanced by density * c dt per sample
    Dp, Dc = T('sym', 'Dprev'), T('sym', 'Dcur')
    dep = []
    for k, (i0, nx, mu) in L.carried_keys.items():
        d = canon(sub(nx, mu)) if tm.is_num(nx) and nx.op != 'ite' else None
        if d is not None and any(a.op == 'dens' for a in tm.atoms(d)) and mu not in tm.atoms(d): dep.append((i0, nx, mu, d, k))
    if len(dep) != 1: ctx.unk('depth accumulates density times path length', '%d candidates' % len(dep)); return
    i0, nx, mu, d, k = dep[0]
    ctx.equal('depth accumulates density times path length', f, i0, ZERO, 'depth before the first step', ln=L.ln)
    rho = [a for a in tm.atoms(d) if a.op == 'dens']
    if len(rho) == 1:
        ctx.equal('depth accumulates density times path length', f, d, mul(ds, rho[0]), 'depth gained in one step', ln=L.ln, ints=real2)
        ok = [decide.same(rho[0].args[j], X(j, K), ints=real2) for j in range(3)]; ok2 = [decide.same(rho[0].args[j], X(j, add(K, ONE)), ints=real2) for j in range(3)]
        ctx.require('depth accumulates density times path length', f, True if all(x is True for x in ok) or all(x is True for x in ok2) else False if any(x is False and y is False for x, y in zip(ok, ok2)) else None, 'density is taken at the position of the step: %s' % tm.show(rho[0])[:300], L.ln)
    # charge of the generic sample
    inner = [n for n in loops(L.body)]
    for s in [s for s in gen if s.root is A(5)]:
        v = s.val; labs = {n.label for n in inner}; ex = {a for z in (v,) + tuple(s.pc) for a in tm.atoms(z) if a.op == 'lexit' and a.args[0] in labs}
        if len(ex) != 1: ctx.unk('charge is the scaled profile', 'profile position: %s' % [tm.show(a) for a in ex]); continue
        lx = ex.pop(); J = [n for n in inner if n.label == lx.args[0]]
        if len(J) != 1: ctx.unk('charge is the scaled profile', 'search loop'); continue
        J = J[0]; g = T('sym', 'g')
        # search: smallest position, from the previous one on, whose depth is not below the current depth
        cr = [(kk, x) for kk, x in J.carried_keys.items() if tm.show(kk[0]) + tm.pathstr(kk[1]) and T('lvn', kk[0], kk[1]) is lx.args[1]]
        if len(cr) != 1: ctx.unk('search of the profile position', ''); continue
        (ck, (ci, cn, cm)) = cr[0]; pos = add(ci, J.K)
        D = add(mu, sub(nx, mu))
        if J.cond is not None and not J.breaks:
            cnd = tm.subst(J.cond, {nx: Dc}) if nx in tm.atoms(J.cond) else tm.subst(J.cond, {mu: sub(Dc, sub(nx, mu))})
            gi = T('sym', 'pos'); cm0 = [m for m in tm.atoms(ci) if m.op == 'mu']
            if cm0 == [ci]: cnd = tm.subst(cnd, {ci: sub(gi, J.K)})
            ctx.equal('search of the profile position', f, cnd, andb(tm.lt0(sub(gi, gsz), True), tm.lt0(sub(G(gi), Dc), False)), 'search goes on while', ln=J.ln, assume=[tm.le0(sub(gi, gsz), True)], ints=lambda t: not real2n(t))
            ctx.equal('search of the profile position', f, cn, add(pos, ONE), 'next position tried', ln=J.ln)
            oi = [x for kk, x in L.carried_keys.items() if x[2] is ci]
            if oi: ctx.equal('search of the profile position', f, oi[0][0], ZERO, 'first position tried', ln=J.ln)
            elif const(ci) is not None: ctx.equal('search of the profile position', f, ci, ZERO, 'first position tried', ln=J.ln)
        m = {lx: g, mu: sub(Dc, sub(nx, mu))}
        v = tm.subst(v, {lx: g}); v = tm.subst(v, {mu: sub(Dc, sub(nx, mu))}); pc = [tm.subst(x, {lx: g}) for x in s.pc if lx in tm.atoms(x)]
        pc = [plain(x) for x in pc]
        spec = ite(eqt(g, ZERO), mul(q(ZERO), scale), mul(scale, add(q(sub(g, ONE)), mul(sub(q(g), q(sub(g, ONE))), div(sub(Dc, G(sub(g, ONE))), sub(G(g), G(sub(g, ONE))))))))
        ctx.equal('charge is the scaled profile', f, v, spec, 'charge at a depth between profile points g-1 and g', assume=pc, ints=lambda t: t is g, ln=s.ln)
    # number of samples: steps until the depth reaches the end of the profile
    for i in range(1, 6): ctx.equal('all samples are filled', f, pl(sizes[i]), pl(sizes[1]), 'number of %s values' % names[i])
    if L.trips is not None and not L.breaks:
        for i in range(1, 6):
            idx = [s.path[0] for s in gen if s.root is A(i)]
            if len(idx) == 1: 
                ctx.equal('all samples are filled', f, pl(tm.subst(idx[0], {K: L.trips})), pl(sizes[i]), 'last %s sample filled + 1' % names[i], assume=[tm.le0(sub(ONE, pl(sizes[i])), True)], ln=L.ln) 
                first = tm.subst(idx[0], {K: ZERO}); ctx.require('all samples are filled', f, const(first) == 0 or (const(first) == 1 and any(s.root is A(i) and const(s.path[0]) == 0 for s in fix)), 'first %s sample' % names[i])
    else: ctx.unk('all samples are filled', 'trip count')
    pre = [n for n in loops(I.nodes) if n is not L and not inloop(L, n) and n.trips is None]
    nm = [n for n in pre if any(a.op == 'lexit' and a.args[0] == n.label for a in tm.atoms(sizes[1]))]
    if len(nm) == 1 and nm[0].cond is not None and not nm[0].breaks:
        N = nm[0]; dd = [(i, x, m) for kk, (i, x, m) in N.carried_keys.items() if any(a.op == 'dens' for a in tm.atoms(x)) and m not in tm.atoms(sub(x, m))]
        if len(dd) == 1:
            i, x, m = dd[0]; Ds = T('sym', 'Dstop'); rho = [a for a in tm.atoms(x) if a.op == 'dens']
            ctx.equal('track ends at the end of the profile', f, tm.subst(N.cond, {m: Ds}), tm.lt0(sub(Ds, G(sub(gsz, ONE))), False), 'condition to go on', ln=N.ln, ints=lambda t: not real2n(t))
            ctx.equal('track ends at the end of the profile', f, i, ZERO, 'depth at the start', ln=N.ln)
            if len(rho) == 1:
                ctx.equal('track ends at the end of the profile', f, sub(x, m), mul(ds, rho[0]), 'depth per step', ln=N.ln, ints=real2)
                for j in range(3): ctx.equal('track ends at the end of the profile', f, rho[0].args[j], X(j, N.K), 'position of step', ln=N.ln, ints=real2)
        cnt = [(kk, n_) for kk, n_ in N.ind.items() if T('lexit', N.label, T('lvn', kk[0], kk[1])) in tm.atoms(sizes[1])]
        if len(cnt) == 1:
            ctx.equal('track ends at the end of the profile', f, tm.subst(sizes[1], {T('lexit', N.label, T('lvn', cnt[0][0][0], cnt[0][0][1])): add(cnt[0][1][0], mul(cnt[0][1][1], T('sym', 'steps')))}), T('sym', 'steps'), 'number of samples against number of steps', ln=N.ln)
    elif not any(a.op in ('lexit', 'ret', 'hv', 'fold', 'mu', 'dens') or a.op == 'ld' and 'grammage' in tm.pathstr(a.args[1]) for a in tm.atoms(sizes[1])):
        ctx.violation('track ends at the end of the profile', f, 'the number of samples %s does not depend on the traversed depth' % tm.show(sizes[1]), L.ln)
    else: ctx.unk('track ends at the end of the profile', 'no counting loop')
def profiles(ctx, f):
    """tracks through concrete profiles at constant density (one unit of depth per time step), interpreted with exact numbers"""
    F = interp.Fraction; rho = tm.num(1 / F(149896229, 500000000)); R = 'charge is the scaled profile'
    def policy(g):
        if g['qs'] == 'environment::IceProfile::get_density': return lambda I, f, this, args, ln: rho
    sq = lambda n: [F(i * i) for i in range(n)]
    for what, G, q in (('several profile points per step', [F(3 * i, 10) for i in range(20)], sq(20)), ('several steps per profile point', [F(0), F(7, 2), F(9)], [F(1), F(8), F(2)]), ('profile that begins below the start', [F(5, 2), F(11, 4), F(3), F(31, 10), F(15, 2), F(8)], [F(4), F(9), F(1), F(7), F(3), F(5)]),
                       ('points at the depths of the samples', [F(i) for i in range(8)], sq(8)), ('uneven profile', [F(0), F(1, 10), F(1, 5), F(5), F(51, 10), F(26, 5), F(53, 10), F(54, 10), F(11, 2), F(19, 2)], sq(10))):
        I = Interp(ctx.P, policy); TH = LV(T('this')); c = TH.sub('charge_excess_profile')
        for n, v in (('grammage', G), ('charge_excess', q)):
            I.write(c.sub(n).sub('#size'), num(len(v)), note=False)
            for i, x in enumerate(v): I.write(c.sub(n).sub(num(i)), tm.num(x), note=False)
        I.write(TH.sub('charge_excess_profile_scaling'), num(2), note=False)
        ctx.run(f, I=I, argvals={0: ONE}); last = G[-1]; N = -(-last.numerator // last.denominator); w = '%s: ' % what
        if I.st.dead or I.unknown: ctx.unk(R, w + str(I.unknown[:2])); continue
        def val(i, k): return I.read(LV(T('deref', argc(i)), (k,)))
        n = val(5, '#size')
        if const(n) is None: ctx.unk(R, w + tm.show(n)[:100]); continue
        ctx.require('track ends at the end of the profile', f, const(n) == N, w + '%s samples, must be %d' % (tm.show(n), N))
        for i in range(min(N, int(const(n)))):
            D = F(i); g = next(j for j, x in enumerate(G) if x >= D) if i else 0
            want = 2 * (q[0] if g == 0 else q[g - 1] + (q[g] - q[g - 1]) * (D - G[g - 1]) / (G[g] - G[g - 1])); v = val(5, num(i)); k = const(v)
            if k is None: ctx.unk(R, w + tm.show(v)[:100])
            else: ctx.require(R, f, k == want, w + 'charge at depth %s is %s, must be %s' % (D, k, want))
def real2n(t): return t.op == 'ld' and ('grammage' in t.args[1] or 'charge_excess' in t.args[1]) and '#size' not in t.args[1] or t.op == 'sym' and t.args[0] in ('Dcur', 'Dstop', 'Dprev')
def real2(t): return t.op == 'K' or (t.op == 'ld' and '#size' in t.args[1])
def SPEED(ctx):
    """the library's speed of light as a constant of the analysed program"""
    r = tm.num(interp.Fraction(149896229, 500000000))
    return r
def results(ctx, f):
    I = ctx.run(f); r = {c.val for c in walk_exits(I.nodes) if c.what == 'return' and isinstance(c.val, T)}
    return sorted(r, key=tm.show) if all(const(x) is not None for x in r) else []
def plainall(res, t, kinds):
    r = T('sym', 'res'); a = [plain(tm.subst(x, {res: r})) for x in [t] + kinds]
    return a[0], a[1:]
def conv(ctx, f, x, L, N):
    R = 'every depth is converted'
    if len(L) != 1 or L[0].trips is None or len(x.path) != 1: ctx.unk(R, 'loop form'); return
    n = T('sym', 'N'); K = L[0].K; i = x.path[0]; m = {}; tr = plain(L[0].trips, ops=('mu', 'lexit', 'fold', 'ret', 'hv', 'proj', 'ld'), memo=m); at = {a for a in tm.atoms(tr) if a.op == 'sym'}
    if len(at) != 1: ctx.unk(R, tm.show(L[0].trips)); return
    tr = tm.subst(tr, {at.pop(): n}); last = tm.subst(i, {K: tr})
    ctx.require(R, f, const(tm.subst(i, {K: ZERO})) == 0, 'first depth converted is %s' % tm.show(tm.subst(i, {K: ZERO})), x.ln)
    ctx.equal(R, f, last, n, 'one past the last depth converted', assume=[tm.le0(neg(n), True)], ln=x.ln)
def check(ctx):
    ctx.program('driver_ext.cc')
    for f in ctx.fn(S1 + 'get_shower', all=True): sampling(ctx, f); profiles(ctx, f)
    # --- segments
    for f in ctx.fn(S1 + 'fill_tracks', all=True):
        got = {}
        def gs(I, g, this, args, ln):
            if g['qs'] != S1 + 'get_shower': return NotImplemented
            got['dt'] = I.rv(args[0]); got['obj'] = this
            for i in range(1, 6):
                l = deref(I.rv(args[i])); I.write(l, T('ld', T('sym', 'samples', i), ()), note=False); I.write(l.sub('#size'), T('sym', 'n'), note=False)
            return T('undef', 'void')
        I = Interp(ctx.P, lambda g: gs if g['qs'] == S1 + 'get_shower' else 'inline'); ctx.run(f, I=I)
        if 'dt' not in got: ctx.unk('segments join neighbouring samples', 'samples are not taken from get_shower'); continue
        ctx.equal('segments join neighbouring samples', f, got['dt'], argc(0), 'step'); sp = SPEED(ctx); n = T('sym', 'n')
        s = lambda i, k: T('ld', T('sym', 'samples', i), (k,))
        adds = [e for e in events(I.nodes, 'vector::push_back', 'vector::emplace_back') if e.obj is T('ptr', T('arg', 1), ())]
        if len(adds) != 1: ctx.unk('segments join neighbouring samples', '%d places add segments' % len(adds)); continue
        e = adds[0]; L = [x for x in loops(I.nodes) if inloop(x, e)]
        if len(L) != 1: ctx.unk('segments join neighbouring samples', 'loop form'); continue
        L = L[0]; K = L.K
        seg = [x for x in stores(L.body) if x.root is T('arg', 1) and x.path[-1:] != ('#size',) and x.val.op == 'obj'] if e.name.endswith('push_back') else []
        v = e.args[0] if e.name.endswith('push_back') else None
        if v is None: ctx.unk('segments join neighbouring samples', 'constructed in place'); continue
        base = ZERO
        ta = proj(v, ('start_time',)); off = [a.args[1][0] for a in tm.atoms(ta) if a.op == 'ld' and a.args[0] is T('sym', 'samples', 1)]
        k = off[0] if len(off) == 1 else K
        for j in range(3):
            ctx.equal('segments join neighbouring samples', f, proj(v, ('start_pos', 'm_data', num(j))), div(s(2 + j, k), sp), 'start position [%d]' % j, ln=e.ln)
            ctx.equal('segments join neighbouring samples', f, proj(v, ('end_pos', 'm_data', num(j))), div(s(2 + j, add(k, ONE)), sp), 'end position [%d]' % j, ln=e.ln)
        ctx.equal('segments join neighbouring samples', f, ta, s(1, k), 'start time', ln=e.ln); ctx.equal('segments join neighbouring samples', f, proj(v, ('end_time',)), s(1, add(k, ONE)), 'end time', ln=e.ln)
        ctx.equal('segments join neighbouring samples', f, proj(v, ('charge',)), s(5, k), 'charge', ln=e.ln)
        if L.trips is not None and k.op in ('K', 'poly'):
            ctx.equal('every pair of neighbouring samples gives a segment', f, tm.subst(k, {K: ZERO}), ZERO, 'first segment', ln=L.ln); ctx.equal('every pair of neighbouring samples gives a segment', f, L.trips, sub(n, ONE), 'number of segments', assume=[tm.le0(sub(ONE, n), True)], ln=L.ln)
            ex = [c for c in e.pc if c not in L.pc and c is not L.cond and not any(a.op == 'ld' and a.args[0] is T('sym', 'samples', 1) for a in tm.atoms(c))]
            if ex: ctx.require('every pair of neighbouring samples gives a segment', f, decide.holds(andb(*ex), [c for c in e.pc if c in L.pc or c is L.cond]), 'segment added only if %s' % tm.show(andb(*ex)), e.ln)
        else: ctx.unk('every pair of neighbouring samples gives a segment', 'trip count')
        if loop_leaves_early(L) and any(x.what in ('break', 'return') for x in walk_exits(L.body) if x.label in (L.label, 0)): ctx.unk('every pair of neighbouring samples gives a segment', 'early exit')
    # --- shower object keeps what it is given
    for f in ctx.fn(S1 + 'Shower1D', all=True):
        if len(f['params']) != 7: continue
        I = ctx.run(f, pol('environment::IceProfile::IceProfile'))
        for i, fld in ((0, 'start_position'), (1, 'energy'), (2, 'zenith'), (3, 'azimuth'), (4, 'charge_excess_profile'), (5, 'charge_excess_profile_scaling')):
            if any(fld == x['n'] for r in ctx.P.d['records'] if r['qn'] == 'showers::Shower1D' for x in r['fields']): ctx.equal('a shower keeps its parameters', f, I.read(LV(T('this'), (fld,))), argc(i), fld)
    # --- choice of the profile
    for f in ctx.fn(SC + 'create_shower', all=True):
        I = Interp(ctx.P, opaque(S1 + 'Shower1D', 'environment::*')); ctx.run(f, I=I)
        ev = events(I.nodes, S1 + 'Shower1D')
        if len(ev) != 1: ctx.unk('requested profile', '%d showers made' % len(ev)); continue
        e = ev[0]; folds = [a for a in tm.atoms(e.args[5]) if a.op == 'fold']
        for i, a, nm in ((0, argc(0), 'start position'), (1, argc(1), 'energy'), (2, argc(2), 'zenith'), (3, argc(3), 'azimuth')): ctx.equal('requested geometry', f, e.args[i], a, nm, ln=e.ln)
        pe = e.args[4]
        if len(folds) != 1:
            if pe.op == 'ld' and pe.args[0] is T('this') and pe.args[1][:1] == ('ce_profiles',) and len(pe.args[1]) == 4:
                m = {}; sc, ee, en = plain(e.args[5], pe.args[1][2], argc(1), memo=m); ctx.equal('scaled with the energy ratio', f, sc, div(en, ee), 'scaling', ln=e.ln)
            ctx.unk('closest stored energy', '%d candidates' % len(folds)); continue
        fo = folds[0]; E = T('sym', 'E'); had, i_s = argc(4), argc(5)
        ctx.equal('scaled with the energy ratio', f, tm.subst(e.args[5], {fo: E}), div(argc(1), E), 'scaling', ln=e.ln)
        L = [x for x in loops(I.nodes) if any(v[2] in tm.atoms(fo) and v[1] is fo.args[3] for v in x.carried_keys.values())]
        if len(L) == 1:
            L = L[0]; (ci, cn, cm), = [v for v in L.carried_keys.values() if v[1] is fo.args[3]][:1]; df = [v for k, v in L.carried_keys.items() if v[2] is not cm and v[2] in tm.atoms(cn)]
            se = lambda k: T('ld', T('this'), ('stored_energies', had, k)); idx = [a.args[1][2] for a in tm.atoms(cn) if a.op == 'ld' and a.args[0] is T('this') and a.args[1][:1] == ('stored_energies',) and len(a.args[1]) == 3 and isinstance(a.args[1][2], T) and L.K in tm.atoms(a.args[1][2])]
            if len(set(idx)) == 1 and len(df) <= 1:
                k = idx[0]; di, dn, dm = df[0] if df else [T('abs', sub(argc(1), x)) for x in (ci, cn, cm)]; new = T('abs', sub(argc(1), se(k))); isr = lambda t: False
                mv = tm.atoms(new)
                pm = {}; cn, dn, dm, cm = plain(cn, dn, dm, cm, memo=pm)
                ctx.equal('closest stored energy', f, cn, se(k), 'kept candidate if the next one is closer', assume=[tm.lt0(sub(new, dm), False)], ints=isr, ln=L.ln)
                ctx.equal('closest stored energy', f, cn, cm, 'kept candidate if the next one is farther away', assume=[tm.lt0(sub(dm, new), False)], ints=isr, ln=L.ln)
                if df: ctx.equal('closest stored energy', f, dn, tm.minmax('min', new, dm), 'distance of the kept candidate', ints=isr, ln=L.ln)
                a0 = [a.args[1][2] for a in tm.atoms(ci) if a.op == 'ld' and a.args[1][:1] == ('stored_energies',)]
                if df and len(a0) == 1: ctx.equal('closest stored energy', f, di, T('abs', sub(argc(1), ci)), 'distance of the first candidate', ints=isr, ln=L.ln)
                sz = T('ld', T('this'), ('stored_energies', had, '#size'))
                if L.trips is not None and len(a0) == 1:
                    st = tm.subst(k, {L.K: ZERO}); ctx.equal('closest stored energy', f, tm.subst(k, {L.K: L.trips}), sz, 'one past the last candidate', assume=[tm.le0(sub(ONE, sz), True)], ln=L.ln)
                    ctx.require('closest stored energy', f, True if const(st) == 0 or (const(st) == 1 and const(a0[0]) == 0) else False if const(st) is not None and const(a0[0]) is not None else None, 'candidates from %s on (first one %s)' % (tm.show(st), tm.show(a0[0])), L.ln)
            else: ctx.unk('closest stored energy', 'form of the search')
        else: ctx.unk('closest stored energy', 'form of the search')
        prof = tm.subst(e.args[4], {fo: E}); size = T('ld', T('this'), ('ce_profiles', had, E, '#size'))
        if not (prof.op == 'ld' and prof.args[0] is T('this') and prof.args[1][:1] == ('ce_profiles',) and len(prof.args[1]) == 4): ctx.unk('requested profile', tm.show(prof)[:200]); continue
        ctx.equal('requested profile', f, prof.args[1][1], had, 'kind of shower', ln=e.ln); ctx.equal('requested profile', f, prof.args[1][2], E, 'energy', ln=e.ln)
        k = prof.args[1][3]; pc = [tm.subst(c, {fo: E}) for c in e.pc]
        ctx.equal('requested profile', f, k, i_s, 'profile number', assume=[tm.le0(neg(i_s), True), tm.lt0(sub(i_s, size), True)], ln=e.ln)
        ctx.require('numbers outside the stored range are refused', f, decide.holds(notb(andb(*pc)), [tm.le0(sub(size, i_s), True)]), 'profile number >= number of profiles', e.ln)
        ctx.require('stored numbers are accepted', f, decide.holds(andb(*pc), [tm.le0(neg(i_s), True), tm.lt0(sub(i_s, size), True)]), 'profile number in range', e.ln)
        # a drawn number is a stored one
        rng = [(tm.subst(x.args[0], {fo: E}), tm.subst(x.args[1], {fo: E}), x.ln) for x in events(I.nodes, 'ctor:std::uniform_int_distribution*') if len(x.args) == 2]
        if len(rng) == 1:
            lo, hi, ln = rng[0]
            ctx.equal('drawn numbers are stored ones', f, lo, ZERO, 'smallest number drawn', ln=ln); ctx.equal('drawn numbers are stored ones', f, hi, sub(size, ONE), 'largest number drawn', assume=[tm.le0(sub(ONE, size), True)], ln=ln)
        else: ctx.unk('drawn numbers are stored ones', '')
        rs = [a for a in tm.atoms(k) if a.op == 'sym' and a.args[0] == 'rnd']
        if len(rs) == 1: ctx.equal('drawn numbers are stored ones', f, k, rs[0], 'profile used if none is requested', assume=[tm.lt0(i_s, True)], ln=e.ln, lo=-6)
        elif not rs and len(rng) == 1 and not events(I.nodes, 'std::shuffle', 'std::sample') and not any(a.op in ('ret', 'hv', 'fold', 'mu', 'lexit') for a in tm.atoms(k)): 
            ctx.require('drawn numbers are stored ones', f, decide.holds(notb(andb(*pc)), [tm.lt0(i_s, True)]) is not True and None or False, 'the drawn number is not used: profile %s' % tm.show(k), e.ln)
    # --- reader
    for f in ctx.fn(SC + 'read_shower', all=True):
        I = ctx.run(f); fr = events(I.nodes, 'fread'); R = 'profiles are read in file order'
        if len(fr) != 5: ctx.unk(R, '%d reads' % len(fr)); continue
        N = argc(1, 0); want = [(T('ptr', T('arg', 1), (ZERO,)), 4, ONE), (T('ptr', T('arg', 2), (ZERO,)), 4, ONE), (T('ptr', T('arg', 3), (ZERO,)), 8, ONE), (T('ptr', T('deref', argc(4)), (ZERO,)), 8, N), (T('ptr', T('deref', argc(5)), (ZERO,)), 8, N)]
        for e, (p, sz, n), nm in zip(fr, want, ('number of points', 'kind', 'energy', 'depths', 'charges')):
            if e.args[0].op == 'ptr' and e.args[0].args[0] in [w[0].args[0] for w in want]: ctx.require(R, f, e.args[0] is p, '%s are read into %s' % (nm, tm.show(e.args[0])), e.ln)
            else: ctx.unk(R, nm + ' are read through a buffer'); continue
            tot = mul(e.args[1], e.args[2]); at = [a for a in tm.atoms(tot) if a.op in ('ld', 'hv', 'ret', 'proj')]
            if const(n) is not None: ctx.equal(R, f, tot, num(sz), 'bytes of ' + nm, ln=e.ln)
            else:
                if len(at) == 1: ctx.equal(R, f, tm.subst(tot, {at[0]: T('sym', 'N')}), mul(num(sz), T('sym', 'N')), 'bytes of ' + nm, ln=e.ln)
        L = [x for x in loops(I.nodes)]
        for x in stores(I.nodes):
            if x.root is T('deref', argc(4)) and x.path[-1:] != ('#size',) and any(inloop(l, x) for l in L):
                conv(ctx, f, x, [l for l in L if inloop(l, x)], N); ctx.equal('depths are converted from kg/m^2', f, x.val, mul(x.old, num(interp.Fraction(6241509740000000000000000000000000000))), 'depth', ln=x.ln)
            elif x.root is T('deref', argc(5)) and x.path[-1:] != ('#size',) and any(inloop(l, x) for l in L): ctx.equal('charges are taken as they are', f, x.val, x.old, 'charge', ln=x.ln)
    for f in ctx.fn(SC + 'ShowerCreator', all=True):
        I = ctx.run(f, pol(SC + 'read_shower', 'environment::IceProfile::IceProfile')); rd = events(I.nodes, SC + 'read_shower'); R = 'profiles are registered as read'
        if len(rd) != 1: ctx.unk(R, '%d reads' % len(rd)); continue
        e = rd[0]; done = notb(eqt(e.res, ZERO)); rs = results(ctx, ctx.fn(SC + 'read_shower'))
        kinds = [orb(*[eqt(e.res, r) for r in rs])] if rs else []
        e0 = e; L = [x for x in loops(I.nodes) if inloop(x, e)]
        use = [x for x in events(I.nodes, 'vector::push_back') if 'ce_profiles' in tm.show(x.obj)]
        if not use: ctx.unk(R, 'no registration'); continue
        for x in use:
            c = andb(*x.pc); ctx.require('nothing is registered at the end of the file', f, decide.holds(*plainall(e0.res, orb(notb(c), notb(done)), kinds)), 'profile registered if %s' % tm.show(c)[:200], x.ln)
