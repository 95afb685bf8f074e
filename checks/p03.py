"""Abstract stream round trips: arrays with symbolic contents are written to an abstract file by the real streamer and read back, for an
enumeration of shapes, piece sizes (dividing, ragged, larger than the array, unlimited along an axis), encodings, placements of zeros, views, initial
buffer sizes and start positions. Shape and every element must come back, reading must stop where writing stopped, no access may leave the
(de)serialization buffer, and each stored piece must be preceded by its encoding and payload length."""
from common import *
import itertools
MIN_OBLIGATIONS = 1500
INF = 2 ** 64 - 1
DENSE, SUP = 1, 2
def unswap(e):
    c = const(e[2])
    if c is None: return None
    n = int(e[0]); return int.from_bytes(int(c).to_bytes(n, 'big'), 'little')
def entries(ft):
    ent = ft.args[0]
    return [ent[i:i + 3] for i in range(0, len(ent), 3)] if ent and not isinstance(ent[0], tuple) else list(ent)
def inst(P, name):
    """the instances of a probe function by (dims, vec_dims)"""
    r = {}
    for f in P.find('probe::' + name):
        m = re.search(r'probe<(\d+)[UL]*, (\d+)', f['qn'])
        if m: r[int(m.group(1)), int(m.group(2))] = f
    return r
def put_array(I, d, nc, sh, pat, shape_arg, val_arg, tag='element'):
    """array argument: shape and elements ('0' zero, 'x' non-zero symbol); pat is repeated over the values"""
    n = nc
    for i, x in enumerate(sh): I.write(LV(T('arg', shape_arg), ('m_data', num(i))), num(x), note=False); n *= x
    vals = []
    for k in range(n):
        v = ZERO if pat[(k // nc) % len(pat)] == '0' else T('sym', tag, num(k))
        I.write(LV(T('arg', val_arg), (num(k),)), v, note=False); vals.append(v)
        if v is not ZERO: I.st.pc = I.st.pc + (notb(eqt(v, ZERO)),)
    return vals
def put_piece(I, piece, arg):
    for i, x in enumerate(piece): I.write(LV(T('arg', arg), ('m_data', num(i))), num(x), note=False)
def pieces_of(sh, piece): 
    """regions in the order in which pieces are stored"""
    axes = [[(b, min(b + p, n)) for b in range(0, n, p)] for n, p in zip(sh, (min(p, 10 ** 6) for p in piece))]
    return list(itertools.product(*axes))
def compare(ctx, f, I, out, vals, what, rule='every element comes back in place'):
    facts = [notb(eqt(v, ZERO)) for v in vals if v is not ZERO]
    for k, v in enumerate(vals): ctx.equal(rule, f, plain(I.read(LV(T('arg', out), (num(k),)))), v, '%s: value %d' % (what, k), assume=facts)
def bounds_ok(ctx, f, I, what):
    bad = I.bounds or []
    ctx.require('no access leaves the buffer', f, not bad, '%s: %s' % (what, 'element %d of %d is %s' % (bad[0][1], bad[0][2], bad[0][0]) if bad else 'all inside'), bad[0][3] or None if bad else None)
def stream_ok(ctx, f, I, what, start=0):
    """file term after reading, position at its end"""
    early = events(I.nodes, 'read-past-end')
    if early: ctx.violation('reading stops where writing stopped', f, what + ': reads beyond what was written', early[0].ln); return None
    ft = I.read(LV(T('arg', 0), ('#file',)))
    if ft.op != 'file': ctx.unk('reading stops where writing stopped', '%s: %s' % (what, tm.show(ft)[:80])); return None
    es = entries(ft); total = sum(int(e[0]) for e in es); p = ft.args[1]; p = const(p) if isinstance(p, T) else p
    if p is None: ctx.unk('reading stops where writing stopped', what)
    else: ctx.require('reading stops where writing stopped', f, int(p) == total, '%s: %d bytes are written, the reader stops at %d' % (what, total, int(p)))
    return es
def headers_ok(ctx, f, es, d, nc, sh, piece, mode, what, skip=0):
    """every piece is preceded by its encoding and payload length"""
    rule = 'every piece is preceded by its encoding and payload length'
    i = skip + 2 * d + 1; n = 0
    if any(int(e[0]) != 8 for e in es[skip:i]) or len(es) < i: ctx.unk(rule, what); return
    while i < len(es):
        if int(es[i][0]) != 8 or i + 1 >= len(es) or int(es[i + 1][0]) != 8: ctx.unk(rule, what); return
        m, k = unswap(es[i]), unswap(es[i + 1])
        if m is None or k is None: ctx.unk(rule, what); return
        j = i + 2
        while j < len(es) and int(es[j][0]) == 4: j += 1
        ctx.require(rule, f, k == j - i - 2, '%s: piece %d announces %d words, %d follow' % (what, n, k, j - i - 2))
        ctx.require(rule, f, m == mode, '%s: piece %d announces encoding %d, requested %d' % (what, n, m, mode))
        i = j; n += 1
def run(ctx, P, f, d, nc, name, sh, piece, pat, mode, init, at=0):
    I = Interp(P); I.bounds = []; pre = at // 8; o = 1 if name == 'second' else 0
    I.write(LV(T('arg', 0), ('#file',)), T('file', tuple((8, 'unsigned long', T('sym', 'prefix', num(i))) for i in range(pre)), 0), note=False)
    vals = put_array(I, d, nc, sh, pat, 1 + o, 3 + o); put_piece(I, piece, 2 + o)
    av = {4 + o: num(mode), 6 + o: num(init)}
    if o: av[1] = num(at)
    what = '%s, shape %s, pieces %s, %s, zeros %s%s' % ({'round': 'array', 'round_other': 'array read by another streamer', 'round_view': 'view of an array', 'second': 'array stored at position %d' % at}[name],
        'x'.join(map(str, sh)), 'x'.join('inf' if x == INF else str(x) for x in piece), {1: 'dense', 2: 'zero-suppressed', 0: 'automatic'}[mode], pat, '' if nc == 1 else ', %d components' % nc)
    try: I = ctx.run(f, I=I, argvals=av)
    except RecursionError: ctx.unk('round trip', 'too deep: ' + what); return None
    return I, vals, what, 5 + o
def one(ctx, P, f, d, nc, name, sh, piece, pat, mode, init, at=0):
    r = run(ctx, P, f, d, nc, name, sh, piece, pat, mode, init, at)
    if r is None: return
    I, vals, what, out = r
    if I.st.dead: ctx.violation('every array with a valid piece size is written and read', f, what + ': refused'); return
    ctx.ok('every array with a valid piece size is written and read', what)
    es = stream_ok(ctx, f, I, what, at)
    if es is None: return
    if at:
        for i in range(at // 8): ctx.equal('what was stored before stays', f, es[i][2], T('sym', 'prefix', num(i)), '%s: word %d' % (what, i))
    for i, x in enumerate(sh): ctx.equal('the shape comes back', f, proj(I.rvret, ('m_data', num(i))), num(x), '%s: axis %d' % (what, i))
    compare(ctx, f, I, out, vals, what); bounds_ok(ctx, f, I, what)
    headers_ok(ctx, f, es, d, nc, sh, piece, mode, what, at // 8)
def check(ctx):
    P = ctx.program('probe_stream.cc'); deep = ctx.tier == 'thorough'; done = 0; work = []
    R, O, V, S = (inst(P, n) for n in ('round', 'round_other', 'round_view', 'second'))
    pats = ['x', '0', 'x0', '0x', '00x', 'xx0'] if not deep else ['x', '0', 'x0', '0x', '00x', 'xx0', 'x00', '0xx', 'x0x00', 'xx00xx0']
    def sweep(tab, name, every=1, at=(0,)):
        j = 0
        for (d, nc), f in sorted(tab.items()):
            if d == 1:
                cases = [((n,), (p,)) for n in range(1, 6 + 3 * deep) for p in range(1, n + 2) if nc == 1 or n < 4]
            else:
                opts = lambda n: [p for p in (1, 2, 3, INF) if p <= n + 1 or p == INF]
                cases = [(sh, p) for sh in ((1, 2), (2, 2), (3, 2), (2, 3)) + (((3, 3), (4, 2), (1, 5)) if deep else ()) for p in itertools.product(opts(sh[0]), opts(sh[1])) if p != (INF, INF)]
                if nc > 1 and not deep: cases = cases[::3]
            for sh, p in cases:
                for mode in (DENSE, SUP):
                    for pat in (pats if mode == SUP else ['x']):
                        j += 1
                        if (j % every and not deep) or (not deep and mode == SUP and d == 2 and j % 2): continue
                        a = at[j % len(at)]
                        work.append((f, d, nc, name, sh, p, pat, mode, (0, 1, 3)[j % 3], a))
    sweep(R, 'round'); sweep(O, 'round_other', 7); sweep(V, 'round_view', 4); sweep(S, 'second', 5, (8, 40))
    parallel(ctx, work, lambda w: one(ctx, P, *w)); done += len(work)
    # requests that cannot be read back are refused
    for (d, nc), f in sorted(R.items()):
        for sh, p, mode in [((2,) * d, (INF,) * d, DENSE), ((2,) * d, (INF,) * d, SUP), ((2,) * d, (2,) * d, 0)]:
            r = run(ctx, P, f, d, nc, 'round', sh, p, 'x', mode, 2)
            if r: ctx.require('unusable requests are refused', f, r[0].st.dead, r[2]); done += 1
    ctx.atleast('stream round trips', done, 150)
