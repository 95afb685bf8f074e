"""P05: nothing outstanding in the chunk cache is ever lost. All histories of cache operations up to a depth over two chunks (cache of 0, 1, 2
slots) are interpreted over an abstract heap and file store; after each of them the cache is flushed, destroyed, moved, and every chunk is read back
from its file by another cache. Effects on files are checked against the outstanding changes of the chunk they belong to."""
from chunks import *
def imports(ctx, P, d, mv, cap, late):
    """another cache directory is imported"""
    h = Hist(ctx, P, d, cap, 'writes'); m = h.m
    for op in ('aA', 'aB', '0A'): 
        if not h.do(op): return
    m.call('flush', d, c=h.c)
    m.I.fs_put(T('str', '/u'), T('dir')); c2 = m.call('make', d, w='/u', cap=1, piece=h.piece)
    if late: 
        m2 = m.call('meta', d, p='fC', id=7, start=[9] * d, shape=[1] * d, null=False); vc = h.fresh([1] * d); m.call('add', d, c=c2, m=m2, s=[1] * d, v=vc)
    h.trace.append('flush, import into another cache (%s)' % ('move' if mv else 'copy'))
    m.call('import', d, c=c2, w='/w', mv=mv); R = 'imported chunks are found'
    if m.I.st.dead: h.bad('the operation is carried out', 'refused: ' + m.why()); return
    if m.vague: ctx.unk(R, h.what()); return
    fs = m.files()
    for x in h.alive():
        r, cells = h.get(x, c2)
        if m.I.st.dead: h.bad(R, 'retrieving %s: ' % x + m.why()); return
        h.compare(x, r, cells, R)
        ctx.require('importing leaves the original unless it is moved', m.last, ('/w/f' + x + SUF in fs) == (not mv), '%s: %s' % (h.what(), fs))
    if late:
        o, cells = m.out(1); m.call('get', d, c=c2, m=m2, out=o)
        if m.I.st.dead: h.bad(R, 'own chunk lost: ' + m.why())
        else: ctx.equal('importing keeps the own chunks', m.last, m.I.read(cells[0]), vc[0], h.what())
    ctx.require('files that are not part of the array are left alone', m.last, '/w/index.bin' in fs and '/w/notes.txt' in fs and '/u/notes.txt' not in fs, '%s: %s' % (h.what(), fs))
def check(ctx):
    P = ctx.program('probe_chunk.cc'); deep = ctx.tier == 'thorough'
    def leaf(h):
        for how in ('flush', 'destroy', 'move', 'clear') + (('move across devices',) if len(h.trace) < 4 or deep else ()): h.leave(how)
    sweep(ctx, P, 'writes', leaf, 4 if deep else 3, ((2, 1, '', 'aB f'), (2, 0, '', 'aB f'), (1, 2, '', 'aB f'), (1, 1, '')) if deep else ((2, 1, ''), (2, 0, ''), (1, 2, '')))
    for d in (1, 2):
        for mv in (True, False):
            for late in (True, False): imports(ctx, P, d, mv, 1, late)
    ctx.atleast('histories', len(ctx.oblig) + len(ctx.viol), 500)
    ctx.rule = 'abstract interpretation of all operation sequences (typestate of cached chunks x files), compared with the contents the operations prescribe'
