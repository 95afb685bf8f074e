"""Histories of operations on a distributed array (registering, appending, swapping axes, moving, importing, rebuilding, reloading), with
the abstract file store; the expected state is the map from global index to element that the operations prescribe."""
from machine import *
import copy
INF = 2 ** 64 - 1
def cells(b, e):
    return [()] if not b else [(i,) + r for i in range(b[0], e[0]) for r in cells(b[1:], e[1:])]
def vol(s):
    n = 1
    for x in s: n *= x
    return n
class DHist:
    OPS = {'r': 'register', 'n': 'register all-zero', 'o': 'register with overlap', 'z': 'register zeros unoptimised'}
    def __init__(s, ctx, P, d, cap, judge, shape=None, foreign=False):
        s.ctx = ctx; s.d = d; s.judge = judge; s.cap = cap; m = s.m = Machine(ctx, P); m.budget = 40000000; m.limit = 60; m.I.unroll = 300
        s.piece = [1] + [INF] * (d - 1); s.shape = shape or [2] * d; s.w = '/w'; s.cont = {}; s.boxes = []; s.trace = []; s.n = 0; s.ok = True; s.foreign = []
        for p in ('/u', '/o'): m.I.fs_put(T('str', p), T('dir'))
        s.c = m.call('make', d, w='/w', cap=cap, shape=s.shape, piece=s.piece)
        if m.I.st.dead or m.vague or s.c is None: ctx.unk('history', 'the array cannot be set up: ' + (m.why() if m.I.st.dead else str(m.I.unknown[-1:])[:160])); s.ok = False; return
        s.src = None
        if foreign:
            s.foreign = ['/w/notes.txt', '/u/notes.txt', '/t/notes.txt', '/w/notes.chunk.bak']; m.I.fs_put(T('str', '/t'), T('dir'))
            for p in s.foreign: m.I.fs_put(T('str', p), T('file', ((1, 'char', num(7)),), 0))
    def fork(s): return s.m.save(), dict(s.cont), copy.deepcopy(s.boxes), list(s.trace), s.c, s.w, s.n, s.src
    def back(s, k): s.m.load(k[0]); s.cont = dict(k[1]); s.boxes = copy.deepcopy(k[2]); s.trace = list(k[3]); s.c, s.w, s.n, s.src = k[4:]
    def what(s): return '%d-D, cache of %d: %s' % (s.d, s.cap, ', '.join(s.trace))
    def bad(s, rule, detail): s.ctx.violation(rule, s.m.last, s.what() + ': ' + detail)
    def lo(s): return [min(b['b'][a] for b in s.boxes) for a in range(s.d)]
    def hi(s): return [max(b['e'][a] for b in s.boxes) for a in range(s.d)]
    def vals(s, n): s.n += 1; return s.m.syms('v%d' % s.n, n)
    def free(s, b, e): return not any(i in s.cont for i in cells(b, e))
    def source(s, b, e, null=False):
        """another array, saved in /u"""
        m = s.m; d = s.d; sh = [y - x for x, y in zip(b, e)]; v = s.vals(vol(sh)) if not null else [ZERO] * vol(sh)
        c = m.call('make', d, w='/u', cap=1, shape=s.shape, piece=s.piece); m.call('reg', d, c=c, b=b, s=sh, v=v, opt=null); m.call('destroy', d, c=c)
        s.src = (b, e, dict(zip(cells(b, e), v)), null)
    def do(s, op, **kw):
        """False: the branch ends here. ops: ('r'|'n'|'o'|'z', b, e), ('a', k) append k rows to the last chunk, 's', ('v', fail), ('i'|'I', fail), 'f', 'l', ('b', shape, overlap, opt, fail)"""
        k = op[0]; m = s.m; d = s.d; may = False; fail = ()
        files0 = m.files(); own0 = [p for p in files0 if p.startswith(s.w + '/') and p not in s.foreign]
        cont0 = dict(s.cont)
        try:
            if k in 'rnoz':
                b, e = list(op[1]), list(op[2]); ov = 1 if k == 'o' else 0; sh = [y - x + 2 * ov for x, y in zip(b, e)]
                v = [ZERO] * vol(sh) if k in 'nz' else s.vals(vol(sh)); s.trace.append('%s %s..%s' % (s.OPS[k], b, e))
                if k == 'o': m.call('rego', d, c=s.c, b=b, e=e, ov=1, s=sh, v=v, opt=False)
                else: m.call('reg', d, c=s.c, b=b, s=sh, v=v, opt=k == 'n')
                g = dict(zip(cells([x - ov for x in b], [y + ov for y in e]), v))
                for i in cells(b, e): s.cont[i] = g[i]
                s.boxes.append(dict(b=b, e=e, ov=ov, null=k == 'n'))
            elif k == 'a':
                x = s.boxes[-1]; may = x['null']; b = [x['e'][0]] + x['b'][1:]; sh = [op[1]] + [q - p for p, q in zip(x['b'][1:], x['e'][1:])]
                v = s.vals(vol(sh)); s.trace.append('append %d' % op[1]); e = [p + q for p, q in zip(b, sh)]
                if x['ov'] or not s.free(b, e): return False       # slices cannot be appended to a chunk that carries a margin
                m.call('append0', d, c=s.c, b=b, s=sh, v=v); s.cont.update(zip(cells(b, e), v)); x['e'][0] += op[1]
            elif k == 's':
                s.trace.append('swap axes'); m.call('swap', d, c=s.c); may = any(b['ov'] for b in s.boxes)
                s.cont = {i[::-1]: t for i, t in s.cont.items()}; s.boxes = [dict(x, b=x['b'][::-1], e=x['e'][::-1]) for x in s.boxes]
            elif k == 'v':
                fail = op[1]; m.I.fsfail = fail; s.trace.append('move' + s.how(fail)); m.call('move', d, c=s.c, w='/v'); may = bool(s.foreign) or 'copy' in fail
            elif k in 'iI':
                fail = op[1]; m.I.fsfail = fail; s.trace.append(('import and move' if k == 'I' else 'import') + s.how(fail)); may = 'copy' in fail
                m.call('import', d, c=s.c, w='/u', mv=k == 'I'); b, e, g, null = s.src; s.cont.update(g); s.boxes.append(dict(b=list(b), e=list(e), ov=0, null=null))
            elif k == 'f': s.trace.append('flush'); m.call('flush', d, c=s.c)
            elif k == 'l': s.trace.append('reload'); m.call('destroy', d, c=s.c); s.c = m.call('make', d, w=s.w, cap=s.cap, shape=s.shape, piece=s.piece)
            elif k == 'b':
                sh, ov, opt, fail = op[1:5]; m.I.fsfail = fail; may = 'copy' in fail; s.trace.append('rebuild to %s, overlap %d%s%s' % (sh, ov, ', optimised' if opt else '', s.how(fail)))
                lo, hi = s.lo(), s.hi(); m.call('rebuild', d, c=s.c, s=list(sh), t='/t', ov=ov, opt=opt)
                s.cont = {i: s.cont.get(i, ZERO) for i in cells(lo, hi)}; s.boxes = [dict(b=lo, e=hi, ov=1, null=True)]
        except interp.Budget: s.ctx.unk('history', s.what() + ': analysis budget'); m.I.fsfail = (); return False
        m.I.fsfail = ()
        if m.vague and not m.I.st.dead: s.ctx.unk('history', s.what() + ': ' + str(m.I.unknown[-1])[:140]); return False
        if s.judge == 'keep': s.keeps(k, fail, files0, own0, cont0)
        if m.I.st.dead:
            if not may: s.bad('the operation is carried out', 'refused: ' + m.why())
            return False
        if k == 'v': s.w = '/v'
        return True
    def how(s, fail): return ' across devices' if fail == ('rename',) else ' to a place where nothing can be written' if fail else ''
    def out(s, n): return s.m.out(n)
    def state(s, rule):
        m = s.m
        if m.I.st.dead: s.bad(rule, 'refused: ' + m.why()); return False
        if m.vague: s.ctx.unk(rule, s.what() + ': ' + str(m.I.unknown[-1:])[:160]); return False
        return True
    # ---- observations
    def fill(s, b, e, off, c=None, cont=None):
        """the region [b, e) into an array filled with sentinels"""
        R = 'the elements of a region are copied to where they belong, and nothing else is changed'; m = s.m; d = s.d
        sh = [y - x + off[a] + 1 for a, (x, y) in enumerate(zip(b, e))]; n = vol(sh); sen = [T('sym', 'keep', num(i)) for i in range(n)]; k = s.fork()
        o, out = s.out(n); s.trace.append('fill from %s..%s at %s' % (b, e, off))
        try: m.call('fill', d, c=c or s.c, s=sh, v=sen, b=list(b), e=list(e), o=list(off), out=o)
        except interp.Budget: s.ctx.unk(R, s.what()); s.back(k); return
        if s.state(R):
            cont = s.cont if cont is None else cont
            for j, i in enumerate(cells([0] * d, sh)):
                g = tuple(x - p + q for x, p, q in zip(i, off, b)); inside = all(p <= x < q for p, x, q in zip(b, g, e))
                want = cont.get(g, sen[j]) if inside else sen[j]
                if s.ctx.equal(R, m.last, m.I.read(out[j]), want, '%s: element %s of the array (global index %s)' % (s.what(), list(i), list(g))) is not True: break
        s.back(k)
    def each(s):
        R = 'looking up an element yields the element at this index'; m = s.m
        for i in sorted(s.cont)[::max(1, len(s.cont) // 6)]:
            k = s.fork(); s.trace.append('element %s' % (list(i),))
            try:
                r = m.call('at', s.d, c=s.c, i=list(i))
                if s.state(R): s.ctx.equal(R, m.last, r, s.cont[i], s.what())
            except interp.Budget: s.ctx.unk(R, s.what())
            s.back(k)
    def loop(s):
        R = 'looping over the elements visits every element once, with its index'; m = s.m; hi = s.hi(); sh = [h + 1 for h in hi]; n = vol(sh); k = s.fork()
        o, out = s.out(n); o2, cnt = s.out(n); s.trace.append('loop')
        for x in cnt: m.I.write(x, ZERO, note=False)
        try:
            m.call('loop', s.d, c=s.c, s=sh, out=o, n=o2)
            if s.state(R):
                for j, i in enumerate(cells([0] * s.d, sh)):
                    if s.ctx.equal(R, m.last, m.I.read(cnt[j]), num(1 if i in s.cont else 0), '%s: visits to %s' % (s.what(), list(i))) is not True: break
                    if i in s.cont and s.ctx.equal(R, m.last, m.I.read(out[j]), s.cont[i], '%s: element at %s' % (s.what(), list(i))) is not True: break
        except interp.Budget: s.ctx.unk(R, s.what())
        s.back(k)
    def chunks(s, w, cont, lo, hi, R):
        """the chunks stored in directory w: together they hold cont, their margins hold the neighbouring elements or the boundary value"""
        m = s.m; d = s.d; k = s.fork()
        def boundary(g): return num(1000000 + 100 * (g[0] + 50)) if d == 1 else num(1000000 + 1000 * (g[0] + 50) + g[1] + 50)
        try:
            c = m.call('lib', d, w=w, cap=1, shape=s.shape, piece=s.piece)
            if not s.state(R): s.back(k); return
            o, ms = s.out(60); n = m.call('list', d, c=c, b=[0] * d, e=[1000] * d, out=o)
            if not s.state(R) or const(n) is None: s.back(k); return
            seen = {}
            for j in range(int(const(n))):
                lv = ms[j]; rd = lambda *p: const(m.I.read(LV(lv.root, lv.path + p)))
                b = [rd('start_ind', 'm_data', num(a)) for a in range(d)]; e = [rd('end_ind', 'm_data', num(a)) for a in range(d)]; ov = rd('overlap')
                if None in b + e + [ov]: s.ctx.unk(R, s.what()); continue
                b = [int(x) for x in b]; e = [int(x) for x in e]; ov = int(ov); fk = s.fork()
                ex = [[x - ov for x in b], [x + ov for x in e]]; sh = [q - p for p, q in zip(*ex)]; o2, out = s.out(vol(sh))
                r = m.call('raw', d, c=c, i=b, out=o2)
                if s.state(R):
                    good = all(const(proj(r, ('m_data', num(a)))) == sh[a] for a in range(d))
                    s.ctx.require(R, m.last, good, '%s: the chunk at %s has the shape %s' % (s.what(), b, tm.show(r)[:100]))
                    for q, i in enumerate(cells(*ex)):
                        if not good: break
                        core = all(x <= y < z for x, y, z in zip(b, i, e)); ins = all(x <= y < z for x, y, z in zip(lo, i, hi)); 
                        want = cont.get(i, ZERO) if ins else boundary(i)
                        if core: seen[i] = seen.get(i, 0) + 1
                        if s.ctx.equal(R, m.last, m.I.read(out[q]), want, '%s: element at %s of the chunk at %s..%s with overlap %d' % (s.what(), list(i), b, e, ov)) is not True: break
                s.back(fk)
            want = cells(lo, hi); miss = [i for i in want if seen.get(i) != 1]
            s.ctx.require(R, m.last, not miss, '%s: %s is covered %d times' % (s.what(), list(miss[0]) if miss else '', seen.get(miss[0], 0) if miss else 0))
            extra = [i for i in seen if i not in set(want)]
            s.ctx.require(R, m.last, not extra, '%s: %s does not belong there' % (s.what(), list(extra[0]) if extra else ''))
        except interp.Budget: s.ctx.unk(R, s.what())
        s.back(k)
    def rebuilt(s):
        """after a rebuild and with everything on disk"""
        k = s.fork(); s.m.call('flush', s.d, c=s.c)
        if s.state('rebuilding'): s.chunks(s.w, s.cont, s.lo(), s.hi(), 'rebuilt chunks hold the elements of their place')
        s.back(k)
    def partial(s, b, e, o, sh, ov, opt=False):
        """rebuild the region [b, e) elsewhere, with the first element at o"""
        R = 'a rebuilt region holds the elements of its place'; m = s.m; d = s.d; k = s.fork(); s.trace.append('rebuild %s..%s to %s, overlap %d, from %s on' % (b, e, sh, ov, o))
        try:
            m.call('partial', d, c=s.c, b=list(b), e=list(e), o=list(o), s=list(sh), t='/o', ov=ov, opt=opt)
            if s.state(R):
                f2 = s.fork(); lo, hi = s.lo(), s.hi(); sft = [x - y for x, y in zip(o, b)]; cont = {}
                # margins: elements of the array where there are any, the boundary value outside of the array
                for i in cells([x - ov for x in b], [x + ov for x in e]):
                    ins = all(x <= y < z for x, y, z in zip(lo, i, hi))
                    mark = num(1000000 + 100 * (i[0] + 50)) if d == 1 else num(1000000 + 1000 * (i[0] + 50) + i[1] + 50)
                    cont[tuple(x + y for x, y in zip(i, sft))] = s.cont.get(i, ZERO) if ins else mark
                s.region('/o', cont, list(o), [x + y for x, y in zip(e, sft)], R); s.back(f2)
                s.fill(lo, hi, [0] * d)
        except interp.Budget: s.ctx.unk(R, s.what())
        s.back(k)
    def region(s, w, cont, lo, hi, R):
        class All(dict):
            pass
        m = s.m; d = s.d; c = m.call('lib', d, w=w, cap=1, shape=s.shape, piece=s.piece)
        if not s.state(R): return
        o, ms = s.out(60); n = m.call('list', d, c=c, b=[0] * d, e=[1000] * d, out=o)
        if not s.state(R) or const(n) is None: return
        seen = {}
        for j in range(int(const(n))):
            lv = ms[j]; rd = lambda *p: const(m.I.read(LV(lv.root, lv.path + p)))
            b = [rd('start_ind', 'm_data', num(a)) for a in range(d)]; e = [rd('end_ind', 'm_data', num(a)) for a in range(d)]; ov = rd('overlap')
            if None in b + e + [ov]: s.ctx.unk(R, s.what()); continue
            b = [int(x) for x in b]; e = [int(x) for x in e]; ov = int(ov); fk = s.fork()
            ex = [[x - ov for x in b], [x + ov for x in e]]; sh = [q - p for p, q in zip(*ex)]; o2, out = s.out(vol(sh)); r = m.call('raw', d, c=c, i=b, out=o2)
            if s.state(R):
                for q, i in enumerate(cells(*ex)):
                    if all(x <= y < z for x, y, z in zip(b, i, e)): seen[i] = seen.get(i, 0) + 1
                    if i in cont and s.ctx.equal(R, m.last, m.I.read(out[q]), cont[i], '%s: element at %s of the chunk at %s..%s with overlap %d' % (s.what(), list(i), b, e, ov)) is not True: break
            s.back(fk)
        want = cells(lo, hi); miss = [i for i in want if seen.get(i) != 1] + [i for i in seen if i not in set(want)]
        s.ctx.require(R, m.last, not miss, '%s: %s is covered %d times' % (s.what(), list(miss[0]) if miss else '', seen.get(miss[0], 0) if miss else 0))
    # ---- no data is lost
    def keeps(s, k, fail, files0, own0, cont0):
        m = s.m; log = m.I.fslog if not (m.I.st.dead and not m.I.fslog) else []; f = m.last; W = s.what()
        touched = {e[1] for e in log if e[0] in ('write', 'create', 'truncate', 'remove')} | {e[2] for e in log if e[0] in ('rename', 'copy', 'copy_file')} | {e[1] for e in log if e[0] == 'rename'}
        for p in s.foreign: s.ctx.require('files that are not part of the array are left alone', f, p not in touched, '%s: %s is changed or removed' % (W, p))
        R = 'files are only removed when their contents are in another file'
        if k in 'viI':
            gone = [(j, e[1]) for j, e in enumerate(log) if e[0] == 'remove' and e[1].endswith('.chunk')]
            for j, p in gone: s.ctx.require(R, f, any(e[0] in ('copy', 'copy_file') and e[1] == p for e in log[:j]), '%s: %s is removed without having been copied' % (W, p))
            for e in log:
                if e[0] in ('rename', 'copy', 'copy_file') and e[1].endswith('.chunk'): s.ctx.require(R, f, e[3] != 'over', '%s: %s overwrites %s' % (W, e[1], e[2]))
            s.ctx.ok(R, W)
        if k == 'i':
            src = {p for p in touched if p.startswith('/u/')}
            s.ctx.require('importing a copy changes nothing in the source', f, not src, '%s: changed %s' % (W, sorted(src)))
        if k == 'b' and not m.I.st.dead:
            R = 'the original is only removed after the replacement has been written out'
            first = [j for j, e in enumerate(log) if e[0] in ('remove', 'truncate') and e[1] in own0 or e[0] == 'rename' and (e[1] in own0 or e[2] in own0)]
            wr = [j for j, e in enumerate(log) if e[0] in ('write', 'create', 'truncate') and e[1].endswith('.chunk') and e[1] not in own0]
            chunkgone = [j for j in first if log[j][1].endswith('.chunk')]
            s.ctx.require(R, f, bool(wr), W + ': nothing is written')
            if chunkgone and wr: s.ctx.require(R, f, min(chunkgone) > max(wr), '%s: %s happens before the last chunk of the replacement (%s) is written' % (W, log[min(chunkgone)][:2], log[max(wr)][1]))
        if k == 'b' and m.I.st.dead or k == 'v' and m.I.st.dead or 'copy' in fail:
            # refused: everything is still somewhere
            R = 'when the operation fails, the chunks still exist'; st = m.I.thrown[-1] if m.I.thrown else None
            if st is not None and k == 'v':
                have = {kk[0] for kk, v in st.store.get(T('fs'), {}).items() if v.op == 'file'}
                for p in own0:
                    if p.endswith('.chunk'): s.ctx.require(R, f, p in have or '/v/' + p.rsplit('/', 1)[1] in have, '%s: %s is gone' % (W, p))
            if st is not None and k == 'b':
                have = {kk[0].rsplit('/', 1)[1] for kk, v in st.store.get(T('fs'), {}).items() if v.op == 'file'}
                made = {e[1].rsplit('/', 1)[1] for e in log if e[0] == 'create' and e[1].endswith('.chunk') and e[1] not in own0}
                orig = all(p in [kk[0] for kk, v in st.store.get(T('fs'), {}).items() if v.op == 'file'] for p in own0 if p.endswith('.chunk'))
                s.ctx.require(R, f, orig or made <= have, '%s: neither the original nor the replacement is complete (%s)' % (W, sorted(made - have)))
            if st is not None and k in 'iI':
                have = {kk[0] for kk, v in st.store.get(T('fs'), {}).items() if v.op == 'file'}
                for p in files0:
                    if p.startswith('/u/') and p.endswith('.chunk'): s.ctx.require(R, f, p in have or '/w/' + p.rsplit('/', 1)[1] in have, '%s: %s is gone' % (W, p))
    def wipe(s, k):
        """clearing or deleting the array removes its own files only"""
        m = s.m; m.call('destroy', s.d, c=s.c); l = m.call('lib', s.d, w=s.w, cap=1, shape=s.shape, piece=s.piece); s.trace.append(k); R = 'files that are not part of the array are left alone'
        if not s.state(R): return
        if k == 'del':
            m.call('del', s.d, c=l); log = m.I.fslog       # the directory cannot be removed when there are other files in it
        else:
            m.call('clear', s.d, c=l); log = m.I.fslog
            if not s.state(R): return
        st = m.I.thrown[-1] if m.I.st.dead and m.I.thrown else m.I.st
        have = {kk[0] for kk, v in st.store.get(T('fs'), {}).items() if v.op == 'file'}
        for p in s.foreign: s.ctx.require(R, m.last, p in have and not any(e[0] in ('write', 'create', 'truncate', 'remove', 'rename') and e[1] == p for e in log), '%s: %s is changed or removed' % (s.what(), p))
    def persistent(s, how='reload'):
        """everything can be read again from disk"""
        R = 'the array can be read again from disk'; k = s.fork()
        if s.do('l'): s.fill([max(0, x - 1) for x in s.lo()], [x + 1 for x in s.hi()], [0] * s.d)
        s.back(k)
def layouts(d):
    if d == 1: return {
        'adjacent': [('r', [2], [5]), ('r', [5], [7])], 'gap': [('r', [3], [5]), ('r', [7], [10])], 'null': [('r', [2], [5]), ('n', [5], [8]), ('r', [8], [9])],
        'overlap': [('o', [2], [5]), ('o', [5], [7])], 'zeros': [('z', [1], [4]), ('r', [4], [5])], 'backwards': [('r', [6], [8]), ('r', [1], [4]), ('n', [4], [6])]}
    return {
        'corner': [('r', [1, 2], [3, 4]), ('r', [1, 4], [3, 5]), ('n', [3, 2], [4, 4])], 'rows': [('r', [0, 1], [2, 4]), ('o', [2, 1], [3, 4])],
        'null': [('n', [1, 1], [3, 3]), ('r', [1, 3], [3, 5])], 'single': [('r', [2, 1], [5, 3])]}
