"""Green's functions made of registered chunks, over an abstract file store. Every element of the sampled function is its own symbol (by global
index and component), so the value of an output sample is a linear form whose coefficients are the weights of the elements."""
from machine import *
from fractions import Fraction as Fr
INF = 2 ** 64 - 1
def cells(b, e): return itertools.product(*(range(x, y) for x, y in zip(b, e)))
def frac(x): return Fr(x)
def linear(x): return [1 - x, x]
def keys(x): return [x * (-Fr(1, 2) + (1 - x / 2) * x), 1 + x * x * (-Fr(5, 2) + Fr(3, 2) * x), x * (Fr(1, 2) + (2 - Fr(3, 2) * x) * x), (-Fr(1, 2) + x / 2) * x * x]
KERN = {1: linear, 2: keys}
def floor(x): return x.numerator // x.denominator
class Green:
    TOL = Fr(1, 20000)
    def __init__(s, ctx, P, boxes, ov, h=(1, 1, 1), start=(0, 0, 0), cap=2, extent=None, limit=200):
        """boxes: (begin, end, null) in index space"""
        s.ctx = ctx; m = s.m = Machine(ctx, P); m.budget = 60000000; m.limit = limit; m.I.unroll = 2000; s.ok = False; s.ov = ov; s.boxes = boxes; s.h = [frac(x) for x in h]; s.start = [frac(x) for x in start]
        s.desc = 'chunks %s, overlap %d' % (', '.join('%s..%s%s' % (list(b), list(e), ' (all-zero)' if n else '') for b, e, n in boxes), ov)
        c = m.call('make', 0, w='/w', cap=cap, shape=[2, 2, 2], piece=[1, INF, INF])
        if s.broken('make'): return
        for b, e, null in boxes:
            lo = [x - ov for x in b]; hi = [x + ov for x in e]; v = []
            for i in cells(lo, hi): v += [ZERO, ZERO] if null else [s.el(i, 0), s.el(i, 1)]
            m.nonzero(*[x for x in dict.fromkeys(v) if x is not ZERO])
            m.call('rego', 0, c=c, b=list(b), e=list(e), ov=ov, s=[y - x for x, y in zip(lo, hi)], v=v, opt=True)
            if s.broken('register'): return
        hi = [max(b[1][a] for b in boxes) for a in range(3)]
        end = [x + y * z for x, y, z in zip(s.start, s.h, hi)]
        s.g = m.call('green', 0, c=c, b=[num(x) for x in s.start], e=[num(x) for x in end], h=[num(x) for x in s.h])
        if s.broken('green'): return
        s.ok = True
    def el(s, i, c):
        # elements of all-zero chunks (margins included) are zero wherever they are stored
        return ZERO if any(n and all(x - s.ov <= y < z + s.ov for x, y, z in zip(b, i, e)) for b, e, n in s.boxes) else s.sym(i, c)
    def sym(s, i, c): return T('sym', 'G', num(i[0]), num(i[1]), num(i[2]), num(c))
    def broken(s, what):
        m = s.m
        if m.I.st.dead or m.vague: s.ctx.unk('set-up', what + ': ' + (m.why() if m.I.st.dead else str(m.I.unknown[-1:])[:200])); return True
    def at(s, k, f):
        """weights of the elements at the index-space position f (None: no chunk, {}: all-zero chunk)"""
        for b, e, null in s.boxes:
            if all(x <= y < z for x, y, z in zip(b, f, e)):
                if null: return {}
                w = {}; K = [KERN[k](y - floor(y)) for y in f]; base = [floor(y) - (k - 1) for y in f]
                for o in itertools.product(range(2 * k), repeat=3):
                    x = K[0][o[0]] * K[1][o[1]] * K[2][o[2]]
                    if x: w[tuple(p + q for p, q in zip(base, o))] = x
                return w
        return None
    def forms(s, t):
        """coefficients of a linear form in symbols, with polynomial coefficients in the other symbols: {(symbols): number}"""
        return {tuple(sorted((repr(a), p) for a, p in mm)): (c, mm) for mm, c in tm.pd(t).items()}
    def close(s, rule, got, want, what, ln=None):
        """got and want agree as polynomials, up to rounding of the coefficients"""
        ctx = s.ctx; d = sub(got, want); worst = None
        if decide.has_opaque(got): ctx.unk(rule, what + ': ' + tm.show(got)[:160]); return None
        for mm, c in tm.pd(d).items():
            for a, p in mm:
                if a.op != 'sym': ctx.unk(rule, what + ': ' + tm.show(a)[:160]); return None
            if abs(c) > s.TOL and (worst is None or abs(c) > abs(worst[1])): worst = (mm, c)
        if worst is None: ctx.ok(rule, what); return True
        nm = ' * '.join(tm.show(a) for a, p in worst[0]) or '1'; pw = tm.pd(want).get(worst[0], 0); pg = tm.pd(got).get(worst[0], 0)
        ctx.violation(rule, s.m.last, '%s: the coefficient of %s is %.4f, must be %.4f' % (what, nm, float(pg), float(pw)), ln); return False
