"""Every named accessor (method or static, const or not, vector or view) must return the address of the component at the position
of its letter in the type's axis order; composite constructors and sub-views and the Cartesian-to-cylindrical conversions are
compared with their defining terms for symbolic components."""
from common import *
MIN_OBLIGATIONS = 60
CLS = re.compile(r'^(XYZT|XYZ|RZT|TZR|RZ|ZR)(Coord|Field|Index|SignedIndex)?Vector(View)?$')
def order(f):
    m = CLS.match(strip_ta(f['qs'].rsplit('::', 1)[0])); return (m.group(1), bool(m.group(3))) if m else (None, None)
def check(ctx):
    P = ctx.program(); n = 0
    def comp_addr(root, isview, i): return T('ptr', T('spbuf', T('ld', root, ())), (num(i),)) if isview else T('ptr', root, ('m_data', num(i)))
    for q, fs in sorted(P.by.items()):
        if '::' not in q: continue
        for f in fs:
            o, view = order(f)
            if o is None: continue
            name = f['n']
            if name.lower() in ('x', 'y', 'z', 'r', 't') and len(name) == 1:
                if name.upper() not in o: continue
                i = o.index(name.upper()); I = ctx.run(f); n += 1
                root = T('arg', 0) if f.get('static') else T('this')
                got = I.ret.ptr() if isinstance(I.ret, LV) else None
                if got is None:     # returned by value
                    ctx.equal('named component', f, I.rvret, I.read(deref(comp_addr(root, view, i))), '%s of a %s value' % (name, o)); continue
                want = comp_addr(root, view, i)
                if got is want: ctx.ok('named component', '%s::%s is component %d' % (q.split('::')[0], name, i))
                elif got.op == 'ptr' and got.args[0] is want.args[0] and len(got.args[1]) == len(want.args[1]): ctx.violation('named component', f, 'returns %s, but %s is component %d of the axis order %s' % (tm.show(got), name, i, o))
                else: ctx.unk('named component', '%s returns %s' % (q, tm.show(got)))
                for st in stores(I.nodes): ctx.violation('accessor does not modify', f, repr(st), st.ln)
            elif f['kind'] == 'ctor' and not view and len(f['params']) == 2 and len(o) == 3:
                ts = [P.ty(p['t']) for p in f['params']]; vecs = [k for k in (0, 1) if 'Vector<' in ts[k]]
                if len(vecs) != 1: continue
                v = vecs[0]; so = CLS.match(strip_ta(unq(ts[v]).split('<')[0])); I = ctx.run(f); n += 1; th = LV(T('this'))
                if not so: continue
                single = [c for c in o if c not in so.group(1)]
                for i, c in enumerate(o):
                    want = argc(v, 'm_data', so.group(1).index(c)) if c in so.group(1) else argc(1 - v)
                    ctx.equal('composite constructor', f, I.read(th.sub('m_data').sub(num(i))), want, '%s component of a %s built from (%s)' % (c, o, ', '.join(ts)))
            elif re.match(r'(rz|zr|rt|tz|xy|xyz)(_view)?$', name) and not view:
                letters = name.split('_')[0].upper(); I = ctx.run(f); n += 1
                for i, c in enumerate(letters):
                    if c not in o: continue
                    if name.endswith('_view'):
                        v = I.rvret; p = I.spanptr(v) if v is not None else None
                        if p is None: ctx.unk('sub-view', q); continue
                        got = padd(p, num(i)); want = T('ptr', T('this'), ('m_data', num(o.index(c))))
                        if got is want: ctx.ok('sub-view', '%s of %s' % (c, q))
                        elif got.op == 'ptr' and got.args[0] is T('this'): ctx.violation('sub-view', f, '%s of the view is %s, must be %s' % (c, tm.show(got), tm.show(want)))
                        else: ctx.unk('sub-view', q + ' ' + tm.show(got)[:100])
                    else: ctx.equal('sub-vector', f, vec(I.rvret, i), thisf('m_data', o.index(c)), '%s of %s' % (c, q))
    ctx.atleast('coordinate accessors', n, 40)
    # ---- conversions
    def real(t): return False
    pos = lambda r: decide.Fraction(r.randint(-40, 40), r.choice([1, 2, 3]))
    x, y, z = [argc(0, 'm_data', i) for i in range(3)]
    for f in ctx.fn('CylindricalGreensFunction::coord_cart_to_cyl', all=True):
        b = T('sym', 'out'); I = ctx.run(f, argvals={1: T('span', T('ptr', b, (ZERO,)), num(2))})
        ctx.equal('cylindrical coordinates', f, I.read(LV(b, (ZERO,))), T('sqrt', add(mul(x, x), mul(y, y))), 'r', ints=real)
        ctx.equal('cylindrical coordinates', f, I.read(LV(b, (ONE,))), z, 'z', ints=real)
    for f in ctx.fn('CylindricalGreensFunction::field_cart_to_cyl', all=True):
        b = T('sym', 'out'); I = ctx.run(f, argvals={2: T('span', T('ptr', b, (ZERO,)), num(2))})
        px, py = argc(1, 'm_data', 0), argc(1, 'm_data', 1); r2 = add(mul(px, px), mul(py, py)); r = T('sqrt', r2)
        want = ite(eqt(r2, ZERO), ZERO, div(add(mul(x, px), mul(y, py)), r))
        got = I.read(LV(b, (ZERO,)))
        axis = [eqt(px, ZERO), eqt(py, ZERO)]
        ctx.equal('projection onto the radial direction', f, got, div(add(mul(x, px), mul(y, py)), r), 'component along r off the axis', assume=[notb(eqt(r2, ZERO))], ints=real)
        ctx.equal('projection onto the radial direction', f, tm.subst(got, {px: ZERO, py: ZERO}), ZERO, 'component along r on the axis', ints=real)
        ctx.equal('projection onto the radial direction', f, I.read(LV(b, (ONE,))), z, 'component along z', ints=real)
    for f in ctx.fn('CylindricalGreensFunction::inner_product', all=True):
        I = ctx.run(f); A = [T('ld', T('spbuf', argc(0)), (num(i),)) for i in (0, 1)]; B = [T('ld', T('spbuf', argc(1)), (num(i),)) for i in (0, 1)]
        ctx.equal('scalar product of field and source', f, I.rvret, add(mul(A[0], B[0]), mul(A[1], B[1])), 'field . source', ints=real)
    for f in ctx.fn('CylindricalGreensFunction::coords_to_index', all=True):
        I = ctx.run(f); view = 'View' in P.ty(f['params'][0]['t']); d = 2 if view else 3; sfx = 'rz' if view else 'rzt'
        for i in range(d):
            c = T('ld', T('spbuf', argc(0)), (num(i),)) if view else argc(0, 'm_data', i)
            want = div(sub(c, thisf('m_meta', 'start_pos_' + sfx, 'm_data', i)), thisf('m_meta', 'sample_interval_' + sfx, 'm_data', i))
            ctx.equal('coordinates to grid index', f, vec(I.rvret, i), want, 'component %d (%s)' % (i, sfx), ints=real)
    for f in ctx.fn('CylindricalGreensFunctionMetadata::CylindricalGreensFunctionMetadata', all=True):
        if len(f['params']) != 3: continue
        I = ctx.run(f); th = LV(T('this'))
        for k, nm in enumerate(('start_pos', 'end_pos', 'sample_interval')):
            for i in range(3): ctx.equal('metadata components', f, I.read(th.sub(nm + '_rzt').sub('m_data').sub(num(i))), argc(k, 'm_data', i), '%s_rzt[%d]' % (nm, i))
            for i in range(2): ctx.equal('metadata components', f, I.read(th.sub(nm + '_rz').sub('m_data').sub(num(i))), argc(k, 'm_data', i), '%s_rz[%d]' % (nm, i))
