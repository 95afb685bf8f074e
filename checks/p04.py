"""Abstract append histories: symbolic arrays are written to an abstract file, slices are appended to them by the real streamer and the whole is read
back, for an enumeration of shapes, axes, piece sizes, encodings and start positions. Where appending is possible the concatenation must come back,
pieces stored earlier and everything in front of the array must be unchanged, and the array-wide header at the start position must carry the new shape.
Where it is not (closed array, mismatching shapes, pieces that would not line up) the call must be refused with the file unchanged."""
from common import *
import itertools
import p03
from p03 import INF, DENSE, SUP, inst, put_array, put_piece, entries, unswap
MIN_OBLIGATIONS = 1500
def raw(P, ft): return [(int(e[0]), e[2]) for e in entries(ft)]
def permitted(sh, sl, piece, axis):
    """can the pieces of the slice simply follow those of the array?"""
    if any(a != b for i, (a, b) in enumerate(zip(sh, sl)) if i != axis): return False
    return all(piece[i] >= sh[i] for i in range(axis)) and sh[axis] % piece[axis] == 0
def divides(sh, piece): return all(p >= n or n % p == 0 for n, p in zip(sh, piece))
class H:
    """a file of which the abstract content is carried from call to call"""
    def __init__(s, ctx, P, F, d, nc, at):
        s.ctx, s.P, s.F, s.d, s.nc, s.at = ctx, P, F, d, nc, at; s.pre = at // 8; s.facts = ()
        s.file = T('file', tuple((8, 'unsigned long', T('sym', 'prefix', num(i))) for i in range(s.pre)), at)
    def call(s, name, setup=None, av={}):
        f = s.F[name][s.d, s.nc]; I = Interp(s.P); I.bounds = []
        I.write(LV(T('arg', 0), ('#file',)), s.file, note=False); I.st.pc = I.st.pc + s.facts
        if setup: setup(I)
        I = s.ctx.run(f, I=I, argvals={k: num(v) for k, v in av.items()})
        ft = I.read(LV(T('arg', 0), ('#file',)))
        if I.st.dead:       # the file as it was when the call gave up
            x = I.thrown[0] if len(I.thrown) == 1 else None
            ft = I.read(LV(T('arg', 0), ('#file',)), x) if x is not None else T('undef', 'file')
        s.facts = tuple(dict.fromkeys(s.facts + tuple(c for c in I.st.pc if c.op == 'not' or c.op == 'eq0' or c.op == 'ne')))
        return f, I, ft
def header(ctx, f, es, h, sh, piece, acc, what):
    """the array-wide header states piece size, shape and access mode"""
    d = h.d; o = h.pre; rule = 'the header at the start position is brought up to date'
    v = [unswap(e) if int(e[0]) == 8 else None for e in es[o:o + 2 * d + 1]]
    for i in range(h.pre): ctx.equal('what is stored in front of the array stays', f, es[i][2], T('sym', 'prefix', num(i)), what)
    if None in v: ctx.unk(rule, what); return
    ctx.require(rule, f, v[:d] == list(piece), '%s: piece size %s, must be %s' % (what, v[:d], list(piece)))
    ctx.require(rule, f, v[d:2 * d] == list(sh), '%s: shape %s, must be %s' % (what, v[d:2 * d], list(sh)))
    if acc is not None: ctx.require(rule, f, (v[2 * d] == 0) == acc, '%s: modification %s, must %sbe' % (what, 'allowed' if v[2 * d] == 0 else 'not allowed', '' if acc else 'not '))
def index(sh, ind):
    k = 0
    for n, i in zip(sh, ind): k = k * n + i
    return k
def concat(sh, vals, sl, svals, axis, nc):
    tot = tuple(n + (sl[i] if i == axis else 0) for i, n in enumerate(sh)); out = []
    for ind in itertools.product(*map(range, tot)):
        if ind[axis] < sh[axis]: k = index(sh, ind); out += vals[k * nc:(k + 1) * nc]
        else: j = list(ind); j[axis] -= sh[axis]; k = index(sl, j); out += svals[k * nc:(k + 1) * nc]
    return tot, out
def history(ctx, P, F, d, nc, sh, piece, at, axis, slices, modes, pat, closed, foreign):
    """write; append the slices one after the other (refusals must leave the file as it is); read. closed: mark as final before append number closed"""
    what0 = 'shape %s, pieces %s, %sappend along axis %d of %s%s' % ('x'.join(map(str, sh)), 'x'.join('inf' if x == INF else str(x) for x in piece), 'start %d, ' % at if at else '',
        axis, ', '.join('x'.join(map(str, s)) for s in slices), '' if nc == 1 else ', %d components' % nc)
    try:
        h = H(ctx, P, F, d, nc, at); box = []
        def st(I): put_piece(I, piece, 2); box.append(put_array(I, d, nc, sh, pat, 1, 3, 'element'))
        f, I, ft = h.call('write', st, {4: modes[0]}); vals = box[0]
        if I.st.dead or ft.op != 'file': ctx.unk('appending', what0 + ': not written'); return
        h.file = T('file', ft.args[0], at); acc = divides(sh, piece); cur = sh
        for n, sl in enumerate(slices):
            what = '%s (append %d, %s)' % (what0, n + 1, {1: 'dense', 2: 'zero-suppressed'}[modes[(n + 1) % len(modes)]])
            if closed == n:
                before = entries(h.file); f, I, ft = h.call('close', None, {1: at})
                if ft.op != 'file' or I.st.dead: ctx.require('an array can be closed', f, False if I.st.dead else None, what); return
                acc = False; es = entries(ft); header(ctx, f, es, h, cur, piece, False, what + ', closed')
                o = h.pre + 2 * d + 1
                ctx.require('pieces stored earlier stay', f, [e[2] for e in es[o:]] == [e[2] for e in before[o:]], what + ': closed')
                h.file = T('file', ft.args[0], at)
            box.clear(); old = entries(h.file)
            f, I, ft = h.call('append', lambda I: box.append(put_array(I, d, nc, sl, pat, 2, 3, 'slice%d' % n)), {1: at, 4: axis, 5: modes[(n + 1) % len(modes)]})
            svals = box[0]
            if ft.op != 'file' and I.st.dead and acc and permitted(cur, sl, piece, axis): ctx.violation('a possible append is carried out', f, what + ': refused'); return
            if ft.op != 'file': ctx.unk('appending', what + ': ' + tm.show(ft)[:60]); return
            es = entries(ft); can = acc and permitted(cur, sl, piece, axis); stays = [(int(e[0]), e[2]) for e in es] == [(int(e[0]), e[2]) for e in old]
            if events(I.nodes, 'read-past-end'): ctx.violation('reading stops where writing stopped', f, what + ': the header is read beyond the end'); return
            if not can:
                ctx.require('an impossible append is refused', f, I.st.dead, what + (': the array is closed to modification' if not acc else ': shapes or pieces do not line up'))
                ctx.require('a refused append changes nothing', f, stays, what)
                if not I.st.dead: return
                continue
            if I.st.dead: ctx.violation('a possible append is carried out', f, what + ': refused'); return
            ctx.ok('a possible append is carried out', what)
            p03.bounds_ok(ctx, f, I, what)
            acc = None if not divides(sl, piece) else True
            cur, vals = concat(cur, vals, sl, svals, axis, nc)
            header(ctx, f, es, h, cur, piece, acc, what)
            o = h.pre + 2 * d + 1
            ctx.require('pieces stored earlier stay', f, [(int(e[0]), e[2]) for e in es[o:len(old)]] == [(int(e[0]), e[2]) for e in old[o:]], what)
            h.file = T('file', ft.args[0], at)
            if acc is None: acc = unswap(es[h.pre + 2 * d]) == 0
        h.file = T('file', h.file.args[0], at)
        f, I, ft = h.call('read', None, {1: at})
        if I.st.dead: ctx.violation('the array with its appended slices can be read', f, what0 + ': refused'); return
        es = p03.stream_ok(ctx, f, I, what0)
        if es is None: return
        for i, x in enumerate(cur): ctx.equal('the shape comes back', f, proj(I.rvret, ('m_data', num(i))), num(x), '%s: axis %d' % (what0, i))
        p03.compare(ctx, f, I, 2, vals, what0, 'the concatenation comes back')
    except RecursionError: ctx.unk('appending', what0 + ': too deep')
def check(ctx):
    P = ctx.program('probe_stream.cc'); deep = ctx.tier == 'thorough'
    F = {n: inst(P, n) for n in ('write', 'append', 'close', 'read')}; work = []
    for d, nc in sorted(F['append']):
        if d == 1: base = [((n,), (p,), 0, [(k,) for k in ks]) for n in (1, 2, 4) + ((3, 6) if deep else ()) for p in (1, 2, 3, 4, INF)[:4] for ks in ((1,), (2,), (2, 2), (4, 2), (2, 1, 1), (1, 1, 1))]
        else:
            P1 = [(1, 1), (1, 2), (2, 1), (2, 2), (1, INF), (2, INF), (INF, 1), (INF, 2), (4, 2), (2, 4)]
            base = [(sh, p, ax, [tuple(k if i == ax else sh[i] for i in range(2)) for k in ks]) for sh in ((2, 2), (1, 2), (2, 1)) + (((2, 3), (4, 2)) if deep else ()) for p in P1 for ax in (0, 1) for ks in ((1,), (2,), (2, 1), (1, 1, 2))]
            base += [((2, 2), p, 0, [(1, 3)]) for p in ((1, INF), (1, 2), (2, 2))] + [((2, 2), p, 1, [(1, 1), (2, 1)]) for p in ((INF, 1), (2, 1))] + [((2, 3), (1, 3), 0, [(2, 2), (2, 4), (1, 3)])]
        if nc > 1 and not deep: base = base[::5]
        for j, (sh, p, ax, sl) in enumerate(base):
            if all(x == INF for x in p): continue
            for modes in ((SUP, SUP), (DENSE, SUP)):
                work.append((d, nc, sh, p, (0, 16)[j % 2], ax, sl, modes, ('x', 'x0', '00x')[j % 3], -1, False))
            if j % 4 == 0: work.append((d, nc, sh, p, (16, 0)[j % 2], ax, sl, (SUP, SUP), 'x0', 0, False))
            if j % 4 == 1 and len(sl) > 1: work.append((d, nc, sh, p, (16, 0)[j % 2], ax, sl, (SUP, DENSE), 'x0', 1, False))
    parallel(ctx, work, lambda w: history(ctx, P, F, *w))
    ctx.atleast('append histories', len(work), 150)
