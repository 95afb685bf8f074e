"""Typestate exploration of the chunk cache: every sequence of operations up to a depth on two chunks, against the expected contents."""
from machine import *
import copy
SUF = '.chunk'
class Hist:
    def __init__(s, ctx, P, d, cap, judge):
        s.ctx = ctx; s.d = d; s.cap = cap; s.judge = judge; s.m = Machine(ctx, P); s.n = 0; s.trace = []
        piece = [1] * d
        s.c = s.m.call('make', d, w='/w', cap=cap, piece=piece); s.piece = piece
        s.meta = {}; s.spec = {}; s.f = s.m.F['add', d]
        for i, (x, sh) in enumerate((('A', [1] * d), ('B', [1] * (d - 1) + [2]))):
            s.meta[x] = s.m.call('meta', d, p='f' + x, id=i, start=[4 * i] + [0] * (d - 1), shape=sh, null=False)
            s.spec[x] = dict(rows=None, dirty=False, clean=False, base=sh, start=[4 * i] + [0] * (d - 1))
        s.m.I.fs_put(T('str', '/w/index.bin'), T('file', ((1, 'char', num(7)),), 0)); s.m.I.fs_put(T('str', '/w/notes.txt'), T('file', (), 0))
    def fork(s): return s.m.save(), copy.deepcopy(s.spec, {id(t): t for x in s.spec.values() if x['rows'] for r in x['rows'] for t in r}), list(s.trace), dict(s.meta)
    def back(s, k): s.m.load(k[0]); s.spec = {x: dict(v, rows=v['rows'] and [list(r) for r in v['rows']]) for x, v in k[1].items()}; s.trace = list(k[2]); s.meta = dict(k[3])
    def shape(s, x):
        r = s.spec[x]['rows']; return [len(r), len(r[0])] if s.d == 2 else [len(r[0])]
    def fresh(s, sh): s.n += 1; n = 1; [n := n * k for k in sh]; return s.m.syms('v%d' % s.n, n)
    def grid(s, sh, v): return [v] if s.d == 1 else [v[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])]
    def what(s): return '%d-D, cache of %d: %s' % (s.d, s.cap, ', '.join(s.trace))
    def bad(s, rule, detail, f=None): s.ctx.violation(rule, f or s.m.last, s.what() + ': ' + detail)
    def legal(s, op):
        k, x = op[0], op[1:]; sp = s.spec.get(x)
        if k == 'a': return sp['rows'] is None
        if k in 'fmcid': return True
        if sp['rows'] is None: return False
        if k == '1': return s.d == 2 and len(sp['rows']) == 1
        return True
    def do(s, op):
        """False: the branch ends here (undecided, refused as it may be, or a violation)"""
        k, x = op[0], op[1:]; sp = s.spec.get(x); m = s.m; d = s.d; may = False; dirty = {y: v['dirty'] for y, v in s.spec.items()}
        nm = {'a': 'register', 'r': 'replace', '0': 'append along axis 0 to', '1': 'append along axis 1 to', 'g': 'retrieve', 'x': 'remove', 'f': 'flush'}[k] + (' ' + x if x else ''); s.trace.append(nm)
        res = None; outs = None
        try:
            if k in 'ar':
                sh = sp['base'] if k == 'a' else s.shape(x); v = s.fresh(sh)
                if k == 'a': m.call('add', d, c=s.c, m=s.meta[x], s=sh, v=v)
                else: m.call('replace', d, c=s.c, m=s.meta[x], m2=s.meta[x], s=sh, v=v)
                sp['rows'] = s.grid(sh, v); sp['dirty'] = True; sp['clean'] = False
            elif k in '01':
                sh = s.shape(x); sl = list(sh); ax = int(k); sl[ax] = 1; v = s.fresh(sl); may = k == '1' and not sp['clean']
                m.call('append' + k, d, c=s.c, m=s.meta[x], s=sl, v=v)
                if d == 1: sp['rows'] = [sp['rows'][0] + v]
                elif k == '0': sp['rows'] = sp['rows'] + [v]
                else: sp['rows'] = [r + [v[i]] for i, r in enumerate(sp['rows'])]
                sp['dirty'] = True; sp['clean'] = False
            elif k == 'g': res, outs = s.get(x)
            elif k == 'x':
                m.call('remove', d, c=s.c, m=s.meta[x]); sp['rows'] = None; dirty[x] = sp['dirty'] = True
            elif k == 'f': m.call('flush', d, c=s.c); [v.update(clean=True) for v in s.spec.values()]
        except interp.Budget: s.ctx.unk('history', s.what() + ': analysis budget'); return False
        if m.I.st.dead:
            if not may: s.bad('the operation is carried out', 'refused: ' + m.why())
            return False
        if m.vague: s.ctx.unk('history', s.what() + ': ' + str(m.I.unknown[-1])[:100]); return False
        log = m.I.fslog; touched = {e[1] for e in log if e[0] in ('write', 'create', 'truncate', 'remove')} | {e[2] for e in log if e[0] in ('rename', 'copy', 'copy_file')}
        if s.judge == 'writes': s.writes(k, x, dirty, touched, log)
        for y, v in s.spec.items():
            if '/w/f' + y + SUF in touched and (v['rows'] is None or not (k in 'ar01' and y == x) or s.cap == 0): v['dirty'] = False
        if k == 'f' or s.cap == 0:
            for v in s.spec.values(): v['dirty'] = False; v['clean'] = True
        if k in 'ar01': 
            if s.judge == 'content': s.metadata(x)
            if k in 'ar': s.resetmeta(x)
        if k == 'x':
            if s.judge == 'content': s.ctx.require('a removed chunk is gone', m.last, '/w/f' + x + SUF not in m.files(), s.what() + ': its file is still there')
            s.resetmeta(x)
        if k == 'g':
            s.compare(x, res, outs, 'the chunk is handed out with everything it was given')
            if sp['clean'] is False and not sp['dirty']: pass
        return True
    def resetmeta(s, x):
        if s.spec[x]['rows'] is None:
            i = 'AB'.index(x); s.meta = dict(s.meta); s.meta[x] = s.m.call('meta', s.d, p='f' + x, id=i, start=s.spec[x]['start'], shape=s.spec[x]['base'], null=False)
    def get(s, x, c=None):
        n = 1; [n := n * k for k in s.shape(x)]; o, cells = s.m.out(n)
        r = s.m.call('get', s.d, c=c or s.c, m=s.meta[x], out=o)
        return r, cells
    def compare(s, x, res, cells, rule):
        m = s.m; sh = s.shape(x); f = m.last
        for a, n in enumerate(sh):
            if s.ctx.equal(rule, f, proj(res, ('m_data', num(a))), num(n), '%s: extent of %s along axis %d' % (s.what(), x, a)) is not True: return False
        want = [t for r in s.spec[x]['rows'] for t in r]
        for i, t in enumerate(want):
            if s.ctx.equal(rule, f, m.I.read(cells[i]), t, '%s: element %d of %s' % (s.what(), i, x)) is not True: return False
        return True
    def metadata(s, x):
        m = s.m; l = deref(s.meta[x]); sp = s.spec[x]
        for a, n in enumerate(s.shape(x)):
            R = 'the chunk description has the extent of the chunk'
            s.ctx.equal(R, m.last, m.I.read(l.sub('shape').sub('m_data').sub(num(a))), num(n), '%s: shape[%d]' % (s.what(), a))
            s.ctx.equal(R, m.last, m.I.read(l.sub('end_ind').sub('m_data').sub(num(a))), num(sp['start'][a] + n), '%s: end_ind[%d]' % (s.what(), a))
            s.ctx.equal(R, m.last, m.I.read(l.sub('start_ind').sub('m_data').sub(num(a))), num(sp['start'][a]), '%s: start_ind[%d]' % (s.what(), a))
    def writes(s, k, x, dirty, touched, log):
        for y in s.spec:
            p = '/w/f' + y + SUF
            if p in touched:
                ok = dirty[y] or (k in 'arx01' and y == x)
                s.ctx.require('a chunk with nothing outstanding is not written', s.m.last, ok, '%s: %s is written (%s)' % (s.what(), p, [e[0] for e in log if p in e[1:]][:6]))
        for p in touched:
            if p not in ['/w/f' + y + SUF for y in s.spec]: s.bad('only the files of its own chunks are written', '%s is changed' % p)
    # ---- what must be true after any history
    def reread(s, x, how, w='/w'):
        m = s.m
        c = m.call('make', s.d, w=w, cap=1, piece=s.piece); s.trace.append(how + ', read %s from disk' % x)
        p = w + '/f' + x + SUF
        if m.I.fs_get(T('str', p)).op == 'absent': s.bad('outstanding changes are written to the file of the chunk', '%s does not exist' % p); return
        r, cells = s.get(x, c)
        if m.I.st.dead: s.bad('outstanding changes are written to the file of the chunk', 'the file cannot be read: ' + m.why()); return
        if m.vague: s.ctx.unk('history', s.what()); return
        s.compare(x, r, cells, 'outstanding changes are written to the file of the chunk')
    def alive(s): return [x for x in s.spec if s.spec[x]['rows'] is not None]
    def leave(s, how):
        """flush/destroy/move/..., then everything must be on disk"""
        m = s.m; k = s.fork()
        try:
            if how == 'flush': m.call('flush', s.d, c=s.c)
            elif how == 'destroy': m.call('destroy', s.d, c=s.c)
            elif how in ('move', 'move across devices'):
                m.I.fsfail = ('rename',) if how != 'move' else (); m.call('move', s.d, c=s.c, w='/v')
            elif how == 'clear': m.call('clear', s.d, c=s.c)
            m.I.fsfail = ()
            if m.I.st.dead:
                s.trace.append(how); s.bad('the operation is carried out', 'refused: ' + m.why())
            elif m.vague: s.ctx.unk('history', s.what() + ', ' + how)
            else:
                w = '/v' if how.startswith('move') else '/w'
                fs = m.files()
                if how == 'clear':
                    s.trace.append(how)
                    s.ctx.require('clearing removes the chunk files', m.last, not [p for p in fs if p.endswith(SUF)], s.what() + ': left %s' % fs)
                    m.call('flush', s.d, c=s.c)
                    if m.I.st.dead: s.bad('a cleared cache holds nothing', 'a later flush is refused: ' + m.why())
                    elif not m.vague: s.ctx.require('a cleared cache holds nothing', m.last, not [p for p in m.files() if p.endswith(SUF)], s.what() + ', flush: left %s' % m.files())
                    m.I.st.dead = False
                else:
                    j = s.fork()
                    for x in s.alive(): s.reread(x, how, w); s.back(j)
                    if how.startswith('move'):
                        s.trace.append(how)
                        s.ctx.require('moving moves the chunk files', m.last, not [p for p in fs if p.endswith(SUF) and p.startswith('/w/')], s.what() + ': left %s' % fs)
                        for x in s.alive():
                            r, cells = s.get(x)
                            if m.I.st.dead: s.bad('chunks are found after a move', 'retrieving %s: ' % x + m.why()); break
                            s.compare(x, r, cells, 'chunks are found after a move')
                s.ctx.require('files that are not part of the array are left alone', m.last, all(p in fs and m.I.fs_get(T('str', p)).op == 'file' for p in ('/w/index.bin', '/w/notes.txt')), '%s, %s: left %s' % (s.what(), how, fs))
        except interp.Budget: s.ctx.unk('history', s.what() + ': ' + how)
        m.I.fsfail = (); s.back(k)
    def peek(s):
        """everything is as expected now"""
        k = s.fork()
        for x in s.alive():
            try:
                if s.do('g' + x) is False: pass
            except interp.Budget: s.ctx.unk('history', s.what())
            s.back(k)
def explore(h, ops, depth, leaf):
    """depth-first over all legal sequences; leaf(h) at every node"""
    leaf(h)
    if depth == 0: return
    k = h.fork()
    for op in ops:
        if len(h.ctx.viol) > 20: return
        if h.legal(op) and h.do(op): explore(h, ops, depth - 1, leaf)
        h.back(k); 
def refuse(h):
    """slices of the wrong shape are refused, and afterwards everything is as before"""
    m = h.m; R = 'slices that do not fit are refused before anything changes'
    if h.d == 1: return
    for x in h.alive():
        for k in '01':
            g = h.fork(); sh = h.shape(x); sl = [1, sh[1] + 1] if k == '0' else [sh[0] + 1, 1]
            h.trace.append('append a slice of shape %s along axis %s to %s' % ('x'.join(map(str, sl)), k, x)); v = h.fresh(sl)
            try:
                m.call('append' + k, 2, c=h.c, m=h.meta[x], s=sl, v=v)
                if m.vague: h.ctx.unk(R, h.what())
                elif not m.I.st.dead: h.bad(R, 'it is accepted')
                elif m.I.thrown:
                    st = m.I.thrown[-1].copy(); st.dead = False; m.I.st = st; m.I.thrown = []
                    h.metadata(x); r, cells = h.get(x)
                    if m.I.st.dead: h.bad(R, 'afterwards the chunk cannot be retrieved: ' + m.why())
                    else: h.compare(x, r, cells, R)
            except interp.Budget: h.ctx.unk(R, h.what())
            h.back(g)
ALL = ['aB', '0A', '1A', 'gA', 'gB', '0B', 'rA', 'xA', 'f']
def sweep(ctx, P, judge, leaf, depth, cases):
    work = []
    for d, cap, *starts in cases:
        for st in starts:
            for o1 in ALL:
                for o2 in [None] + ALL: work.append((d, cap, st, o1, o2))
    def one(w):
        d, cap, st, o1, o2 = w; h = Hist(ctx, P, d, cap, judge)
        for op in ['aA'] + st.split():
            if not h.do(op): return
        if not h.legal(o1) or not h.do(o1): return
        if o2 is None: leaf(h); return
        if not h.legal(o2) or not h.do(o2): return
        explore(h, ALL, depth - 2, leaf)
    parallel(ctx, work, one)
