"""Value graph of the quadrature weight filling compared with 1 (interior) / one half (global ends) for a symbolic
block [ind_a, ind_b) of a symbolic number of samples, and of the block partition at its call sites."""
from common import *
MIN_OBLIGATIONS = 3
def check(ctx):
    P = ctx.program()
    fs = ctx.fn('Quadrature::TrapezoidalRule::fill_weights', all=True)
    for f in fs:
        a, b, N = [T('ld', T('arg', i), ()) for i in range(3)]
        buf = T('sym', 'weights')
        I = ctx.run(f, argvals={3: T('ptr', buf, (ZERO,)), 4: T('ptr', buf, (sub(b, a),))})
        j = T('sym', 'j'); got = I.read(LV(buf, (j,)))
        half = num(decide.Fraction(1, 2)); g = add(a, j)
        n0 = tm.le0(sub(b, a), True)
        asm = [tm.lt0(sub(a, b), True), tm.le0(sub(b, N), True), tm.le0(neg(j), True), tm.lt0(sub(j, sub(b, a)), True), tm.le0(sub(num(2), N), True)]
        spec = ite(orb(eqt(g, ZERO), eqt(g, sub(N, ONE))), half, ONE)
        ctx.equal('trapezoidal weights', f, got, spec, 'weight of sample ind_a+j', assume=asm, lo=0, hi=7, n=400)
        outside = [st for st in stores(I.nodes) if st.root is not buf]
        ctx.require('only the weights are written', f, not outside, str(outside[:1]))
        ab = [e for e in walk_exits(I.nodes) if e.what == 'abort']
        for e in ab: ctx.require('accepts matching ranges', f, decide.holds(notb(andb(*e.pc)), asm), 'abort at line %s for a matching range' % e.ln, e.ln)
        if not ab: ctx.ok('accepts matching ranges')
    ctx.atleast('weight-filling instances', len(fs), 1)
