"""Value graph of the signal-calculator front ends down to the call on the Green's function they hold: object, segment, time window,
sample count, caller's buffer, out-of-bounds policy and weight of that call are compared with the request; the constructor opens the
given path with the given cache depth."""
from common import *
MIN_OBLIGATIONS = 24
GF = 'CylindricalGreensFunction::'
def front(ctx, cls):
    for f in ctx.fn(cls + '::' + cls, all=True):
        I = ctx.run(f, opaque(GF + '*')); ev = [e for e in events(I.nodes, GF + 'CylindricalGreensFunction') if len(e.args) >= 2]
        if not ev: ctx.unk('opens the requested Green\'s function', 'no construction found'); continue
        # the object that ends up in the member
        gf = I.read(LV(T('this'), ('m_gf',)))
        mine = [e for e in ev if e.obj is gf]
        if not mine: ctx.unk('opens the requested Green\'s function', tm.show(gf)); continue
        e = mine[-1]
        ctx.equal('opens the requested Green\'s function', f, e.args[0], argc(0), 'path', ln=e.ln)
        ctx.equal('opens the requested Green\'s function', f, e.args[1], argc(1), 'cache depth', ln=e.ln)
def forward(ctx, f, first, segment, oob, weight, valid):
    """arguments first..first+3 of f are start time, sampling interval, count, buffer"""
    I = ctx.run(f, opaque(GF + '*')); gf = T('ld', T('this'), ('m_gf',)); ev = events(I.nodes, GF + 'apply_accumulate'); sig = T('ptr', T('arg', first + 3), ())
    nothing = tm.le0(argc(first + 2), True); R = 'request is passed on unchanged'
    if not ev:
        if not I.unknown and not events(I.nodes, GF + '*'): ctx.violation(R, f, 'the Green\'s function is never evaluated')
        else: ctx.unk(R, 'no direct call')
        return
    if len(ev) > 1 or any(n.kind == 'loop' and any(x is ev[0] for x in walk(n.body)) for n in walk(I.nodes)):
        # evaluated several times: only an unconditional repetition is a definite double contribution
        if len(ev) > 1 and decide.same(andb(*ev[0].pc, *ev[1].pc), FALSE, valid) is False and ev[0].args == ev[1].args: ctx.violation('evaluated once', f, 'the same segment is accumulated twice', ev[1].ln)
        else: ctx.unk('evaluated once', '%d calls' % len(ev))
        return
    e = ev[0]; a = e.args; root = T('ptr', T('deref', gf), ())
    ctx.require('evaluated once', f, decide.holds(orb(nothing, andb(*e.pc)), valid), 'the Green\'s function is evaluated only if %s' % tm.show(andb(*e.pc)), e.ln)
    if e.obj is root or e.obj is gf: ctx.ok('evaluated on the opened Green\'s function')
    elif e.obj is not None and e.obj.op == 'ptr' and e.obj.args[0].op == 'new': ctx.violation('evaluated on the opened Green\'s function', f, 'evaluated on another object %s' % tm.show(e.obj), e.ln)
    else: ctx.unk('evaluated on the opened Green\'s function', tm.show(e.obj) if e.obj is not None else '')
    for nm, got, spec in segment(a[0]) + [('start time', a[1], argc(first)), ('sampling interval', a[2], argc(first + 1)), ('number of samples', a[3], argc(first + 2)), ('out-of-bounds policy', a[5], num(oob)), ('weight', a[6], weight)]:
        ctx.equal(R, f, got, spec, nm, assume=[notb(nothing)] + valid, ln=e.ln)
    p = e.extra[4]
    if p is sig: ctx.ok('accumulates into the caller\'s buffer')
    elif p is not None and p.op == 'ptr' and p.args[0].op in ('local', 'tmp', 'new'):
        # a buffer of its own must at least be added to the caller's
        w = [s for s in stores(I.nodes) if s.root is T('arg', first + 3) and s.path[-1:] != ('#size',)]
        if not w: ctx.violation('accumulates into the caller\'s buffer', f, 'accumulates into a private buffer that never reaches the caller', e.ln)
        else: ctx.unk('accumulates into the caller\'s buffer', 'private buffer')
    else: ctx.unk('accumulates into the caller\'s buffer', tm.show(p) if p is not None else '')
    for s in stores(I.nodes):
        if s.root is T('arg', first + 3) and p is sig: 
            v = decide.same(s.val, s.old) if s.old is not None and isinstance(s.val, T) else None
            if v is False: ctx.violation('buffer content is kept', f, repr(s), s.ln)
            elif v is None: ctx.unk('buffer content is kept', repr(s))
        elif s.root.op == 'this' and s.path[:1] == ('m_gf',): ctx.violation('Green\'s function stays open', f, repr(s), s.ln)
def check(ctx):
    P = ctx.program(); en = P.enums
    def oob(n):
        k = [v for q, v in P.enums.items() if q.endswith('OutOfBoundsBehavior::' + n)]
        if not k: raise Broken('enumerator ' + n)
        return k[0]
    front(ctx, 'SignalCalculator')
    for f in ctx.fn('SignalCalculator::AccumulateSignal', all=True):
        seg = lambda v: [('segment ' + '.'.join(map(str, p)), proj(v, tuple(num(x) if isinstance(x, int) else x for x in p)), argc(0, *p)) for p in [('start_pos', 'm_data', i) for i in range(3)] + [('end_pos', 'm_data', i) for i in range(3)] + [('start_time',), ('end_time',), ('charge',)]]
        forward(ctx, f, 1, seg, oob('RaiseError'), ONE, [])
    ctx.program('driver_ext.cc'); front(ctx, 'C8SignalCalculator')
    for f in ctx.fn('C8SignalCalculator::calculate', all=True):
        def seg(v):
            o = []
            for nm, fld, a in (('start', 'start', 0), ('end', 'end', 1)):
                o += [('%s position [%d]' % (nm, i), proj(v, (fld + '_pos', 'm_data', num(i))), argc(a, i)) for i in range(3)] + [(nm + ' time', proj(v, (fld + '_time',)), argc(a, 3))]
            return o + [('charge', proj(v, ('charge',)), argc(2))]
        real = lambda t: False
        forward(ctx, f, 3, seg, oob('Ignore'), argc(7), [tm.lt0(sub(argc(0, 3), argc(1, 3)), False)])
