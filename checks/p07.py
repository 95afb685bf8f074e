"""P07: updates act on the right chunk and combine with the right stored data. All histories of cache operations up to a depth over two chunks are
interpreted over an abstract heap and file store with symbolic element values; after each, every chunk is retrieved and compared element by element
with what the operations prescribe, its description is compared after every growth, and slices that do not fit are offered."""
from chunks import *
def nulls(ctx, P, d, cap):
    """a chunk without stored data reads as zeros of its shape"""
    h = Hist(ctx, P, d, cap, 'content'); m = h.m
    for op in ('aA', '0A'):
        if not h.do(op): return
    mn = m.call('meta', d, p='', id=5, start=[9] * d, shape=[2] * d, null=True)
    for rnd in range(2):
        o, cells = m.out(2 ** d); h.trace.append('retrieve an all-zero chunk')
        r = m.call('get', d, c=h.c, m=mn, out=o); R = 'an all-zero chunk reads as zeros'
        if m.I.st.dead: h.bad(R, 'refused: ' + m.why()); return
        for a in range(d): ctx.equal(R, m.last, proj(r, ('m_data', num(a))), num(2), h.what())
        for c in cells: ctx.equal(R, m.last, m.I.read(c), ZERO, h.what())
        if not h.do('gA'): return
        if rnd == 0: m.call('flush', d, c=h.c)
def check(ctx):
    P = ctx.program('probe_chunk.cc'); deep = ctx.tier == 'thorough'
    def leaf(h): h.peek(); refuse(h)
    sweep(ctx, P, 'content', leaf, 4 if deep else 3, ((2, 1, '', 'aB f'), (2, 0, '', 'aB f'), (2, 2, '', 'aB f'), (1, 1, '')) if deep else ((2, 1, ''), (2, 0, ''), (2, 2, 'aB f'), (1, 1, '')))
    for d in (1, 2):
        for cap in (0, 1, 2): nulls(ctx, P, d, cap)
    ctx.atleast('histories', len(ctx.oblig) + len(ctx.viol), 500)
    ctx.rule = 'abstract interpretation of all operation sequences (typestate of cached chunks x files), compared with the contents the operations prescribe'
