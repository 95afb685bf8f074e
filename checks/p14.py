"""P14: regions copied out of or rebuilt from chunks land where they came from."""
from dist import *
TECHNIQUE = 'abstract interpretation of histories of the distributed array over an abstract file store, element-wise comparison of value terms'
def check(ctx):
    P = ctx.program('probe_dist.cc'); T_ = ctx.tier == "thorough"; work = []
    for d in (1, 2):
        shapes = {1: [[2], [3], [9]], 2: [[2, 2], [1, 3], [6, 6]]}[d]
        for name, L in layouts(d).items():
            for cap in (0, 1, 5) if T_ else ((1,) if d == 2 else (0, 2)):
                work.append((d, name, cap, 'look', None))
                for sh in shapes:
                    for ov in (0, 1, 2) if T_ else (0, 1):
                        for opt in (False, True): 
                            if T_ or opt == (name in ('null', 'zeros', 'corner')): work.append((d, name, cap, 'rebuild', (sh, ov, opt)))
                for ov in (0, 1): work.append((d, name, cap, 'partial', ov))
                for op in ('a', 's', 'i', 'I', 'v', 'f', 'l', 'fl', 'sl', 'al', 'la', 'bb', 'ab', 'Ib', 'sb', 'lb'):
                    if T_ or cap == (2 if d == 1 else 1) or op in ('a', 'ab', 'I', 'al'): work.append((d, name, cap, 'after', op))
    def one(w):
        d, name, cap, kind, arg = w; h = DHist(ctx, P, d, cap, 'land')
        if not h.ok: return
        if kind == 'after' and ('i' in arg or 'I' in arg): h.source(*(([11], [13]) if d == 1 else ([6, 1], [7, 3])))
        for op in layouts(d)[name]:
            if not h.do(op): return
        look = lambda: (h.fill([max(0, x - 1) for x in h.lo()], [x + 1 for x in h.hi()], [1] * d), h.each(), h.loop())
        if kind == 'look':
            look(); lo, hi = h.lo(), h.hi()
            if d == 1: R = [([a], [b]) for a in range(lo[0], hi[0]) for b in range(a + 1, hi[0] + 1)]
            else: R = [([a, c], [b, e]) for a in range(lo[0], hi[0]) for b in range(a + 1, hi[0] + 1) for c in range(lo[1], hi[1]) for e in range(c + 1, hi[1] + 1)]
            for b, e in R[::1 if T_ else 4]: h.fill(b, e, [0] * d if (b[0] + e[-1]) % 2 else [1] + [0] * (d - 1))
        elif kind == 'rebuild':
            sh, ov, opt = arg
            if h.do(('b', sh, ov, opt, ())): h.rebuilt(); look(); h.persistent()
        elif kind == 'partial':
            lo, hi = h.lo(), h.hi(); mid = [(x + y) // 2 for x, y in zip(lo, hi)]; ov = arg
            h.partial(lo, hi, [0] * d if not ov else [3] * d, [2] * d, ov); h.partial(mid, hi, [5] + [1] * (d - 1), [2] + [1] * (d - 1), ov); h.partial(lo, mid if all(m > l for m, l in zip(mid, lo)) else hi, list(lo), [1] * d, ov)
        else:
            for o in arg:
                if o == 's' and (d == 1 or any(b['ov'] for b in h.boxes)): return
                if o in 'iI' and not h.free(*h.src[:2]): return
                op = {'a': ('a', 2), 'i': ('i', ()), 'I': ('I', ()), 'v': ('v', ()), 'b': ('b', [2] * d, 1, False, ())}.get(o, o)
                if not h.do(op): return
            look(); h.persistent()
            if arg[-1] == 'b': h.rebuilt()
    parallel(ctx, work, one)
    ctx.atleast('obligations', len(ctx.oblig) + len(ctx.viol), 500)
    ctx.rule = 'content of arrays, chunks and files after histories of operations'
