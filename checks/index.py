"""Typestate exploration of the chunk index: every sequence of index operations up to a depth, against the set of chunk descriptions that they prescribe."""
from machine import *
import copy
OPS = {'r': 'register a chunk', 'n': 'register an all-zero chunk', 'o': 'register a chunk with overlap', 'g': 'grow the last chunk', 's': 'swap axes', 'l': 'save and load', 'm': 'move', 'i': 'import (copy)', 'I': 'import (move)', 'c': 'clear', 'q': 'query the shape', 'p': 'query points'}
class IHist:
    def __init__(s, ctx, P, d, judge):
        s.ctx = ctx; s.d = d; s.judge = judge; m = s.m = Machine(ctx, P); m.budget = 4000000; m.limit = 10; s.trace = []
        I = m.I; I.fs_put(T('str', '/u'), T('dir')); I.fs_put(T('str', '/v'), T('dir')); s.path = '/w/index.bin'; s.k = 0; s.names = set()
        # another index, saved before
        o = m.call('make', d, w='/u/index.bin'); s.other = []; s.ok = True
        for i in range(2):
            st, sh = [70 + 10 * i] * d, [2] * d; m.call('reg', d, c=o, start=st, shape=sh, ov=i, null=False); s.other.append(dict(start=st, end=[x + 2 for x in st], shape=sh, ov=i, null=False))
        m.call('destroy', d, c=o)
        s.c = m.call('make', d, w=s.path); s.spec = []
        if m.I.st.dead or m.vague or s.c is None: s.ctx.unk('history', 'the index cannot be set up: ' + (m.why() if m.I.st.dead else str(I.unknown[-1:])[:200])); s.ok = False
    def fork(s): return s.m.save(), copy.deepcopy(s.spec), list(s.trace), s.c, s.path, s.k
    def back(s, k): s.m.load(k[0]); s.spec = copy.deepcopy(k[1]); s.trace = list(k[2]); s.c, s.path, s.k = k[3:]
    def what(s): return '%d-D: %s' % (s.d, ', '.join(s.trace))
    def bad(s, rule, detail, f=None): s.ctx.violation(rule, f or s.m.last, s.what() + ': ' + detail)
    def legal(s, op):
        if op in 'gs': return bool(s.spec)
        if op in 'iI': return s.m.I.fs_get(T('str', '/u/index.bin')).op == 'file' and not any(e['start'][0] >= 60 for e in s.spec)
        if op == 'm': return s.path == '/w/index.bin'
        return True
    def do(s, op):
        m = s.m; d = s.d; s.trace.append(OPS[op])
        try:
            if op in 'rno':
                st = [0] * (d - 1) + [5 * s.k]; sh = [2] * (d - 1) + [5]; s.k += 1
                m.call('reg', d, c=s.c, start=st, shape=sh, ov=1 if op == 'o' else 0, null=op == 'n')
                s.spec.append(dict(start=st, end=[a + b for a, b in zip(st, sh)], shape=sh, ov=1 if op == 'o' else 0, null=op == 'n'))
            elif op == 'g':
                e = max(s.spec, key=lambda e: e['start'][0]); n = 2; m.call('grow', d, c=s.c, i=e['start'], n=n); e['end'][0] += n; e['shape'][0] += n; s.k += 1
            elif op == 's':
                m.call('swap', d, c=s.c)
                for e in s.spec:
                    for q in ('start', 'end', 'shape'): e[q][0], e[q][-1] = e[q][-1], e[q][0]
                s.k += 20                                       # further chunks do not touch the swapped ones
            elif op == 'l': m.call('destroy', d, c=s.c); s.c = m.call('make', d, w=s.path)
            elif op == 'm': m.call('move', d, c=s.c, w='/v/index.bin'); s.path = '/v/index.bin'
            elif op in 'iI': m.call('import', d, c=s.c, w='/u/index.bin', mv=op == 'I'); s.spec += copy.deepcopy(s.other)
            elif op == 'c': m.call('clear', d, c=s.c); s.spec = []
            elif op in 'qp': s.observe(op); return not m.I.st.dead
        except interp.Budget: s.ctx.unk('history', s.what() + ': analysis budget'); return False
        if m.I.st.dead:
            if s.judge == 'index': s.bad('the operation is carried out', 'refused: ' + m.why())
            return False
        if m.vague: s.ctx.unk('history', s.what() + ': ' + str(m.I.unknown[-1])[:100]); return False
        if s.judge == 'index':
            fs = m.files()
            if op == 'm': s.ctx.require('the index is stored at its place only', m.last, '/v/index.bin' in fs and '/w/index.bin' not in fs, '%s: files %s' % (s.what(), fs))
            if op in 'iI': s.ctx.require('importing leaves the original unless it is moved', m.last, ('/u/index.bin' in fs) == (op == 'i'), '%s: files %s' % (s.what(), fs))
            if op == 'l': s.ctx.require('the index is stored at its place only', m.last, s.path in fs, '%s: files %s' % (s.what(), fs))
        return True
    def entry(s, lv, i):
        m = s.m; e = lv.sub(num(i)); r = lambda *p: m.I.read(LV(e.root, e.path + p)); v = lambda q: [r(q, 'm_data', num(k)) for k in range(s.d)]
        return dict(start=v('start_ind'), end=v('end_ind'), shape=v('shape'), off=v('loc_ind_offset'), ov=r('overlap'), type=r('chunk_type'), file=r('filepath'), id=r('chunk_id'))
    def fetch(s, b, e):
        m = s.m; lv = m.I.fresh('out'); l2 = m.I.fresh('arg'); m.I.write(l2, lv.sub(ZERO).ptr(), note=False)
        n = m.call('list', s.d, c=s.c, b=b, e=e, out=l2)
        if m.I.st.dead or m.vague or n is None or const(n) is None: return None
        return [s.entry(lv, i) for i in range(int(const(n)))]
    def vec(s, name):
        m = s.m; r = m.call(name, s.d, c=s.c)
        if m.I.st.dead or m.vague or r is None: return None
        return [proj(r, ('m_data', num(k))) for k in range(s.d)]
    def observe(s, only=None):
        """everything the index reports"""
        m = s.m; d = s.d; ctx = s.ctx; judge = only is None; index = judge and s.judge == 'index'
        def gone(rule):
            if m.I.st.dead: s.bad(rule, 'the query is refused: ' + m.why()) if index else None
            else: ctx.unk(rule, s.what() + ': ' + str(m.I.unknown[-1:])[:160])
        lo = [min(e['start'][a] for e in s.spec) if s.spec else 0 for a in range(d)]; hi = [max(e['end'][a] for e in s.spec) if s.spec else 0 for a in range(d)]
        vol = 0
        for e in s.spec:
            v = 1
            for a in range(d): v *= e['end'][a] - e['start'][a]
            vol += v
        box = 1
        for a in range(d): box *= hi[a] - lo[a]
        want = {'shape': [h - l if vol == box else 0 for l, h in zip(lo, hi)], 'begin': lo, 'end': hi}
        R = 'start, end and shape are those of the chunks'
        for q in ('shape', 'begin', 'end'):
            if only == 'p': break
            v = s.vec(q)
            if v is None: gone(R); return
            if index:
                for a in range(d): ctx.equal(R, m.last, v[a], num(want[q][a]), '%s: %s along axis %d' % (s.what(), q, a))
        R = 'the index lists every chunk once, as it is'
        L = s.fetch([0] * d, [1000] * d)
        if L is None: gone(R); return
        from fsmodel import canon
        cc = lambda t: const(t)
        if index:
            if not ctx.require(R, m.last, len(L) == len(s.spec), '%s: %d chunks listed instead of %d' % (s.what(), len(L), len(s.spec))): return
        key = lambda e: tuple(e['start'])
        got = {}
        for e in L:
            k = tuple(cc(x) for x in e['start'])
            if None in k: ctx.unk(R, s.what()); return
            got.setdefault(k, []).append(e)
        if index:
            for w in s.spec:
                g = got.get(tuple(w['start']))
                if not ctx.require(R, m.last, g is not None and len(g) == 1, '%s: the chunk at %s is listed %d times' % (s.what(), w['start'], len(g or []))): continue
                g = g[0]
                for a in range(d):
                    ctx.equal(R, m.last, g['end'][a], num(w['end'][a]), '%s: end_ind[%d] of the chunk at %s' % (s.what(), a, w['start']))
                    ctx.equal(R, m.last, g['shape'][a], num(w['shape'][a]), '%s: shape[%d] of the chunk at %s' % (s.what(), a, w['start']))
                    ctx.equal(R, m.last, g['off'][a], num((w['start'][a] - w['ov']) % 2 ** 64), '%s: loc_ind_offset[%d] of the chunk at %s' % (s.what(), a, w['start']))
                ctx.equal(R, m.last, g['ov'], num(w['ov']), '%s: overlap of the chunk at %s' % (s.what(), w['start']))
        if judge and s.judge == 'ids':
            R = 'chunks have identities of their own'
            for i, a in enumerate(L):
                for b in L[:i]:
                    ca, cb = cc(a['id']), cc(b['id'])
                    if ca is None or cb is None: ctx.unk(R, s.what()); continue
                    ctx.require(R, m.last, ca != cb, '%s: the chunks at %s and %s share the identity %s' % (s.what(), [tm.show(x) for x in a['start']], [tm.show(x) for x in b['start']], ca))
            R = 'chunks have files of their own'; F = [(e, canon(e['file'])) for e in L]
            for i, (a, fa) in enumerate(F):
                for b, fb in F[:i]:
                    if fa.op != 'str' or fb.op != 'str': ctx.unk(R, s.what() + ': ' + tm.show(fa)[:60]); continue
                    if fa.args[0] == '' or fb.args[0] == '': continue
                    ctx.require(R, m.last, fa is not fb, '%s: the chunks at %s and %s share the file %s' % (s.what(), [tm.show(x) for x in a['start']], [tm.show(x) for x in b['start']], fa.args[0]))
            for w in s.spec:
                g = got.get(tuple(w['start']))
                if not g: continue
                f = canon(g[0]['file'])
                if f.op == 'str': ctx.require('only all-zero chunks have no file', m.last, (f.args[0] == '') == w['null'], '%s: the chunk at %s has the file name "%s"' % (s.what(), w['start'], f.args[0]))
        if index or only == 'p':
            # point and region queries at every chunk
            for w in s.spec:
                for p, R in ((list(w['start']), 'a chunk is found by its indices'), ([x - 1 for x in w['end']], 'a chunk is found by its indices')):
                    lv = m.I.fresh('out'); l2 = m.I.fresh('arg'); m.I.write(l2, lv.sub(ZERO).ptr(), note=False)
                    r = m.call('at', d, c=s.c, i=p, out=l2)
                    if m.I.st.dead or m.vague: gone(R); return
                    if not index: continue
                    if not ctx.require(R, m.last, r is TRUE, '%s: no chunk is found at %s' % (s.what(), p)): continue
                    e = s.entry(lv, 0)
                    for a in range(d): ctx.equal(R, m.last, e['start'][a], num(w['start'][a]), '%s: index %s, start of the chunk found' % (s.what(), p))
            if index and s.spec:
                p = [max(e['end'][a] for e in s.spec) for a in range(d)]; lv = m.I.fresh('out'); l2 = m.I.fresh('arg'); m.I.write(l2, lv.sub(ZERO).ptr(), note=False)
                r = m.call('at', d, c=s.c, i=p, out=l2)
                if m.I.st.dead or m.vague: gone('no chunk is found where none is'); return
                ctx.require('no chunk is found where none is', m.last, r is FALSE, '%s: a chunk is found at %s' % (s.what(), p))
    def look(s):
        k = s.fork()
        try: s.observe()
        except interp.Budget: s.ctx.unk('history', s.what() + ': analysis budget')
        s.back(k)
def sweep(ctx, P, judge, depth, alphabet, starts, dims=(1, 2)):
    def go(h, left, first=None):
        for op in (first or alphabet):
            if not h.legal(op): continue
            k = h.fork()
            if len(ctx.viol) > 40: return
            if h.do(op):
                if op not in 'qp': h.look()
                if left > 1: go(h, left - 1)
            h.back(k)
    items = [(d, st, a) for d in dims for st in starts for a in alphabet]
    def one(x):
        d, st, a = x; h = IHist(ctx, P, d, judge)
        if not h.ok: return
        for op in st:
            if not h.do(op): return
        if a == alphabet[0]: h.look()
        go(h, depth, a)
    parallel(ctx, items, one)
