"""The constructor of a line current segment: the set of arguments that make it throw must be exactly start time >= end time
(gated path condition compared with the reference predicate), and on the accepting path every field holds its argument."""
from common import *
MIN_OBLIGATIONS = 10
def check(ctx):
    P = ctx.program(); fs = [f for f in ctx.fn('LineCurrentSegment::LineCurrentSegment', all=True) if len(f['params']) == 5]; ctx.atleast('segment constructors', len(fs), 1)
    for f in fs:
        I = ctx.run(f); T0, T1 = argc(2), argc(3); real = lambda t: False
        th = [x for x in walk_exits(I.nodes) if x.what in ('throw', 'abort')]
        if not th: ctx.violation('non-increasing times are refused', f, 'no path of the constructor throws'); continue
        ctx.equal('non-increasing times are refused', f, orb(*[andb(*x.pc) for x in th if x.what == 'throw']), tm.le0(sub(T1, T0), False), 'condition under which the constructor reports an error', ln=th[0].ln, ints=real)
        for x in th:
            if x.what == 'throw' and x.val.op == 'rethrow': ctx.violation('an error is thrown', f, 'throw without an exception object', x.ln)
        if I.st.dead: ctx.violation('increasing times are accepted', f, 'no path constructs a segment'); continue
        this = LV(T('this')); ok = [tm.lt0(sub(T0, T1), False)]
        for k, n in enumerate(('start_pos', 'end_pos')):
            for i in range(3): ctx.equal('fields keep the arguments', f, I.read(this.sub(n).sub('m_data').sub(num(i))), argc(k, 'm_data', i), '%s[%d]' % (n, i), assume=ok, ints=real)
        for k, n in ((2, 'start_time'), (3, 'end_time'), (4, 'charge')): ctx.equal('fields keep the arguments', f, I.read(this.sub(n)), argc(k), n, assume=ok, ints=real)
    # no other way to create one: a default constructor or an aggregate would skip the check
    rec = [r for r in P.d['records'] if r['qn'] == 'LineCurrentSegment']
    ctors = [f for f in P.by.get('LineCurrentSegment::LineCurrentSegment', []) if len(f['params']) != 5 and not f.get('implicit')]
    for f in ctors:
        I = ctx.run(f)
        if not any(x.what == 'throw' for x in walk_exits(I.nodes)) and not any('LineCurrentSegment' in P.ty(p['t']) for p in f['params']): ctx.unk('other constructors', f['qn'])
