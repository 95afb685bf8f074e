"""P13: rebuilding or moving a chunked array never destroys the only copy of data."""
from dist import *
TECHNIQUE = 'effect ordering on abstractly interpreted histories with an abstract file store'
X = ('rename',); XX = ('rename', 'copy')
def check(ctx):
    P = ctx.program('probe_dist.cc'); deep = ctx.tier == 'thorough'; work = []
    for d in (1, 2):
        for j, name in enumerate(layouts(d)):
            for cap in (0, 1, 5) if deep else ((0, 3)[j % 2],):
                for foreign in (False, True):
                    for fail in ((), X, XX):
                        for k in 'iIvb':
                            if d == 2 and not deep and (foreign or j > 1) and k != 'b': continue
                            pre = ((), ('f',), ('l',), ('a',), ('fa',), ('I',)) if deep else ((), ('f',)) if d == 1 else ((),)
                            for p in pre: work.append((d, name, cap, foreign, fail, p, k))
                if deep or d == 1 or j < 2: work += [(d, name, cap, True, None, p, k) for p in ((), ('f',)) for k in ('clear', 'del')]
    work.sort(key=lambda w: (w[-1] != 'b', -w[0]))
    def one(w):
        d, name, cap, foreign, fail, pre, k = w; h = DHist(ctx, P, d, cap, 'keep', foreign=foreign)
        if not h.ok: return
        if k in 'iI' or 'I' in pre: h.source(*(([11], [13]) if d == 1 else ([6, 1], [7, 3])))
        for op in layouts(d)[name]:
            if not h.do(op): return
        for o in ''.join(pre):
            if not h.do({'a': ('a', 2), 'I': ('I', ())}.get(o, o)): return
        if k in ('clear', 'del'): h.wipe(k); return
        if h.do((k, [2] * d, 1, False, fail) if k == 'b' else (k, fail)): h.persistent()
    parallel(ctx, work, one)
    ctx.atleast('obligations', len(ctx.oblig) + len(ctx.viol), 300)
    ctx.rule = 'order of the effects on files of the original and of its replacement'
