"""P16: every output sample takes its own value, whatever kind of chunk serves it."""
from green import *
TECHNIQUE = 'abstract interpretation of runs of samples over symbolic sampled functions with an abstract file store; comparison of linear forms'
A = [((0, 0, 0), (2, 2, 3), 0), ((0, 0, 3), (2, 2, 5), 0), ((0, 0, 5), (2, 2, 8), 0)]
LAY = {'three': A, 'zero in the middle': [A[0], A[1][:2] + (1,), A[2]], 'zero first': [A[0][:2] + (1,), A[1]], 'zero last': [A[0], A[1][:2] + (1,)], 'hole': [A[0], A[2]],
       'not a regular grid': [A[0], ((0, 0, 3), (1, 2, 5), 0), ((1, 0, 3), (2, 1, 5), 0), ((1, 1, 3), (2, 2, 5), 0)],
       'single': [((0, 0, 0), (2, 2, 4), 0)], 'all zero': [A[0][:2] + (1,), A[1][:2] + (1,)]}
def run(ctx, g, k, pos, t0, dt, n, ignore, lay):
    R = 'every sample takes its own value'; m = g.m
    src = [T('sym', 'src', num(i)) for i in range(2)]; wt = T('sym', 'weight'); init = [T('sym', 'init', num(i)) for i in range(n)]
    f0 = [(x - y) / z for x, y, z in zip(pos, g.start, g.h)]; what = '%s; kernel of support %d at r, z = %s, %s, %d samples from %s in steps of %s' % (g.desc, k, pos[0], pos[1], n, t0, dt)
    fk = m.save(); o, out = m.out(n + 1); m.I.write(out[n], ZERO, note=False); m.I.bounds = []
    try: m.call('acc%d' % k, 0, g=g.g, x=[num(x) for x in pos], t0=num(t0), dt=num(dt), n=n, src=src, wt=wt, ignore=ignore, **{'in': init}, out=o)
    except interp.Budget: ctx.unk(R, what); m.load(fk); return
    want = []; hole = None
    for i in range(n):
        w = g.at(k, f0 + [(t0 + i * dt - g.start[2]) / g.h[2]])
        if w is None and hole is None: hole = i
        want.append(w)
    bad = m.I.bounds; m.I.bounds = None
    if k > g.ov:
        if any(want): ctx.require('the stencil stays within the data of a chunk', m.last, True if m.I.st.dead or m.I.read(out[n]) is ONE else None if m.vague else False, what + ': evaluated although the overlap is too small')
        m.load(fk); return
    if m.I.st.dead: ctx.violation(R, m.last, what + ': refused: ' + m.why()); m.load(fk); return
    if m.vague: ctx.unk(R, what + ': ' + str(m.I.unknown[-1:])[:200]); m.load(fk); return
    thrown = m.I.read(out[n])
    if hole is not None and not ignore: ctx.equal('positions without data are reported', m.last, thrown, ONE, what)
    else: ctx.equal('positions with data are evaluated' if hole is None else 'positions without data are ignored', m.last, thrown, ZERO, what)
    for i in range(n):
        if hole is not None and i > hole and want[i]: continue      # what happens to the rest of the run is up to the policy
        e = init[i]
        for j, x in (want[i] or {}).items():
            for c in range(2): e = add(e, mul(num(x), mul(mul(g.el(j, c), src[c]), wt)))
        if g.close(R, m.I.read(out[i]), e, '%s: sample %d' % (what, i)) is False: break
    m.load(fk)
def check(ctx):
    P = ctx.program('probe_green.cc'); deep = ctx.tier == 'thorough'; work = []
    H = Fr(1, 2); Q = Fr(1, 4)
    for k in (1, 2):
        for lay in LAY: work.append((k, lay))
    def one(w):
        k, lay = w; boxes = LAY[lay]; far = lay == 'single'
        g = Green(ctx, P, boxes, k, h=(1, 1, 1) if not far else (2, H, Q), start=(0, 0, 0) if not far else (1, -3, 5))
        if not g.ok: return
        if k == 1 and far: run(ctx, g, 2, [g.start[0] + g.h[0] / 4, g.start[1] + g.h[1] / 2], g.start[2] + g.h[2] / 4, g.h[2], 2, True, lay)
        for (r, z) in ((Q, H), (Fr(5, 4), Fr(3, 4))) if not deep else ((Q, H), (Fr(5, 4), Fr(3, 4)), (0, 1), (H, Fr(3, 2))):
            for t0, dt, n in ((Q, H, 8), (Fr(1, 8), Fr(7, 4), 4), (H, Q, 5), (Fr(9, 4), Fr(3, 8), 5), (Fr(1, 3), 2, 2)):
                if (boxes[-1][1][2] < t0 + dt * (n - 1)) and lay != 'single': n = floor((boxes[-1][1][2] - t0) / dt) + 2
                for ign in (True, False):
                    run(ctx, g, k, [g.start[0] + r * g.h[0], g.start[1] + z * g.h[1]], g.start[2] + t0 * g.h[2], dt * g.h[2], n, ign, lay)
    parallel(ctx, work, one)
    ctx.atleast('obligations', len(ctx.oblig) + len(ctx.viol), 100)
    ctx.rule = 'sample k of a run is the interpolated value at start + k * step'
