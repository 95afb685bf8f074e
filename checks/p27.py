"""Value graph of the cylindrical boundary rule for a symbolic element index, chunk origin and chunk content: the value handed out is
compared with the stored value at the mirrored radius (r below zero) or zero (any other element); the read is guarded so that it
stays inside the chunk; the chunk itself is not written."""
from common import *
MIN_OBLIGATIONS = 4
def check(ctx):
    P = ctx.program(); fs = ctx.fn('SpatialSymmetry::Cylindrical::boundary_evaluator', all=True)
    for f in fs:
        I = ctx.run(f); out = T('spbuf', argc(4)); dbuf = T('deref', argc(0, 'm_data')); n = 2
        if I.st.dead: ctx.violation('evaluator returns a value', f, 'no path returns'); continue
        q = [argc(3, 'm_data', i) for i in range(3)]; s = [argc(1, 'm_data', i) for i in range(3)]; sh = [argc(0, 'm_shape', 'm_data', i) for i in range(3)]; st = [argc(0, 'm_strides', 'm_data', i) for i in range(3)]
        neg_r = tm.lt0(q[0], True); loc = [sub(neg(q[0]), s[0]), sub(q[1], s[1]), sub(q[2], s[2])]; ok = [orb(notb(neg_r), andb(*[andb(tm.le0(neg(l), True), tm.lt0(sub(l, h), True)) for l, h in zip(loc, sh)]))]
        flat = add(argc(0, 'm_offset'), add(mul(loc[0], st[0]), add(mul(loc[1], st[1]), mul(loc[2], st[2]))))
        dom = {x: (lambda r: decide.Fraction(r.randint(-6, 6))) for x in q + s}; dom.update({x: (lambda r: decide.Fraction(r.randint(1, 14))) for x in sh})
        for j in range(n):
            got = I.read(LV(out, (num(j),)))
            ctx.equal('mirrored value or zero', f, got, ite(neg_r, T('ld', dbuf, (add(flat, num(j)),)), ZERO), 'component %d' % j, assume=ok, dom=dom, n=300)
        rd = 0
        for x in stores(I.nodes):
            if x.root is out:
                for a in tm.atoms(x.val):
                    if a.op == 'ld' and a.args[0] is dbuf:
                        rd += 1; ctx.require('reads stay inside the chunk', f, decide.holds(andb(*[andb(tm.le0(neg(l), True), tm.lt0(sub(l, h), True)) for l, h in zip(loc[1:], sh[1:])], tm.lt0(sub(loc[0], sh[0]), True)), list(x.pc) + [tm.le0(neg(l), True) for l in loc], dom=dom), 'element read at the mirrored position', x.ln)
            elif x.root.op in ('arg', 'deref', 'glob') and x.root is not T('arg', 4): ctx.violation('stored data is not modified', f, repr(x), x.ln)
        # no abort for r >= 0
        for x in walk_exits(I.nodes):
            if x.what in ('throw', 'abort') and decide.same(andb(*x.pc, notb(neg_r)), FALSE, dom=dom) is False: ctx.violation('defined for every element with r >= 0', f, 'aborts when %s' % tm.show(andb(*x.pc))[:300], x.ln)
