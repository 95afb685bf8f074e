"""Order and operands of everything written to the output stream: one loop iteration writes element k of the times, then element k
of the values (with their own precisions), then ends the line; the loop makes one iteration per sample, and every element that is
read is inside its vector whatever the two lengths are."""
from common import *
from p24 import nest
MIN_OBLIGATIONS = 8
def check(ctx):
    P = ctx.program(); fs = ctx.fn('ExportSignal', all=True)
    for f in fs:
        I = ctx.run(f); n0, n1 = argc(0, '#size'), argc(1, '#size'); eq = eqt(n0, n1)
        w = events(I.nodes, '<<'); nums = [e for e in w if e.args and e.args[0].op == 'ld' and e.args[0].args[0] in (T('arg', 0), T('arg', 1)) and e.args[0].args[1] and isinstance(e.args[0].args[1][0], T)]
        if not nums: raise Broken('no vector element is written in ExportSignal')
        if len(nums) != 2 or {e.args[0].args[0] for e in nums} != {T('arg', 0), T('arg', 1)}:
            ctx.violation('one time and one value per line', f, 'elements written: %s' % [tm.show(e.args[0]) for e in nums]) if all(len([x for x in nest(I.nodes, e) if x[0] == 'loop']) == 1 for e in nums) else ctx.unk('one time and one value per line', ''); continue
        a, b = nums
        if a.args[0].args[0] is T('arg', 1): ctx.violation('time before value', f, 'the value is written before the time', b.ln); a, b = b, a
        la, lb = [[x[1] for x in nest(I.nodes, e) if x[0] == 'loop'] for e in (a, b)]
        if la != lb or len(la) != 1: ctx.unk('loop form', ''); continue
        L = la[0]; ia, ib = a.args[0].args[1][0], b.args[0].args[1][0]; K = L.K
        if ctx.equal('line k shows sample k', f, ib, ia, 'index of the value against index of the time', ln=b.ln) is None: continue
        ctx.equal('line k shows sample k', f, ia, K, 'index written in line k', ln=a.ln)
        if L.trips is None: ctx.unk('one line per sample', ''); continue
        ctx.equal('one line per sample', f, L.trips, n0, 'number of lines', assume=[eq], ln=L.ln)
        for e in nums:
            extra = [c for c in e.pc if c not in L.pc and c is not L.cond]
            if extra: ctx.require('line is written unconditionally', f, decide.holds(andb(*extra), [eq] + list(L.pc) + [L.cond]), 'written only if %s' % tm.show(andb(*extra)), e.ln)
        if loop_leaves_early(L): ctx.unk('no early exit', '')
        for e, idx, n, nm in ((a, ia, n0, 'times'), (b, ib, n1, 'values')):
            ctx.require('reads stay inside the vector', f, decide.holds(andb(tm.le0(neg(idx), True), tm.lt0(sub(idx, n), True)), [c for c in e.pc] + [tm.le0(neg(K), True)]), 'element %s of the %s, which has %s elements' % (tm.show(idx), nm, tm.show(n)), e.ln)
        order = [e for e in walk(L.body) if e.kind == 'ev' and e.name == '<<']
        ends = [e for e in order[order.index(b):] if (e.args[0].op == 'fref' and 'endl' in str(e.args[0].args[1])) or (e.args[0].op == 'str' and '\n' in e.args[0].args[0]) or const(e.args[0]) == 10]
        between = [e for e in order[order.index(a):order.index(b)] if (e.args[0].op == 'fref' and 'endl' in str(e.args[0].args[1])) or (e.args[0].op == 'str' and '\n' in e.args[0].args[0])]
        ctx.require('one line per sample', f, bool(ends) and not between, 'line end after the value of sample k (and none between time and value)', b.ln)
        sep = [e for e in order[order.index(a) + 1:order.index(b)] if e.args[0].op == 'str' or const(e.args[0]) is not None]
        ctx.require('time and value are separated', f, bool(sep), 'separator between time and value', b.ln)
        for e, k, nm in ((a, 3, 'time'), (b, 4, 'value')):
            pr = [x for x in order[:order.index(e)] if x.args[0].op == 'manip' and x.args[0].args[0] == 'setprecision']
            if not pr: ctx.unk('precision', nm); continue
            ctx.equal('requested precision', f, pr[-1].args[0].args[1], argc(k), 'digits of the ' + nm, ln=pr[-1].ln)
        op = events(I.nodes, 'open')
        if op: ctx.equal('requested file', f, op[0].args[0], argc(2), 'path opened', ln=op[0].ln)
        for st in stores(I.nodes):
            if st.root in (T('arg', 0), T('arg', 1)): ctx.violation('samples are not modified', f, repr(st), st.ln)
