"""Verdict on `term == spec`.

True  : identical normal forms (the value graph proves it)
False : the normal forms differ AND the two terms denote different functions of their leaves
        (refuted by polynomial-identity testing of the *terms*; the code is never executed)
None  : cannot tell (uninterpreted / widened parts involved): counted, never reported
"""
import random, math
from fractions import Fraction
import terms as tm
from terms import T, TRUE, FALSE, num, const

OPAQUE = {'unk', 'hv', 'fold', 'lexit', 'nondet', 'mu', 'undef', 'havoc', 'exc', 'noexc', 'cbret', 'oob', 'bigmul', 'inv0', 'sorted', 'it'}
class Opaque(Exception): pass
class Reject(Exception): pass

def has_opaque(t):
    return any(a.op in OPAQUE for a in tm.atoms(t))

class Env:
    def __init__(s, rng, ints=None, lo=0, hi=6, dom=None):
        s.rng = rng; s.vals = {}; s.ints = ints or (lambda t: True); s.lo = lo; s.hi = hi; s.dom = dom or {}; s.forced = {}; s.busy = set()
    def leaf(s, key, t):
        if key not in s.vals and t in s.forced and t not in s.busy and (t not in s.dom or isinstance(s.dom[t], tuple)):
            s.busy.add(t); p, c, d = s.forced[t]
            v = (d - ev(p, s, {})) / c; s.busy.discard(t); v = Fraction(v) if isinstance(v, float) else v
            if t in s.dom:
                if not s.dom[t][1](v): raise Reject()
            elif s.ints(t) and (v.denominator != 1 or v < s.lo): raise Reject()
            s.vals[key] = v
        if key not in s.vals:
            if t in s.dom: 
                d = s.dom[t]; d = d[0] if isinstance(d, tuple) else d; s.vals[key] = d(s.rng) if callable(d) else d
            elif s.ints(t): s.vals[key] = Fraction(s.rng.randint(s.lo, s.hi if not s.forced or s.rng.random() < .5 else min(s.hi, max(s.lo, 0) + 8)))
            else: s.vals[key] = Fraction(s.rng.randint(-40, 40), s.rng.choice([1, 2, 3, 7]))
        return s.vals[key]

def ev(t, E, memo):
    if t in memo: return memo[t]
    r = _ev(t, E, memo); memo[t] = r; return r
def ekey(x, E, memo):
    if isinstance(x, T):
        if x.op in ('arg', 'this', 'sym', 'glob', 'local', 'tmp', 'new', 'str', 'type', 'K', 'deref') and not any(isinstance(a, T) for a in x.args): return x
        return ('v', ev(x, E, memo))
    if isinstance(x, tuple): return tuple(ekey(y, E, memo) for y in x)
    return x
def fl(x): return float(x)
def _ev(t, E, memo):
    o = t.op; a = t.args
    if o == 'poly':
        r = Fraction(0)
        for m, c in a[0]:
            x = c
            for at, p in m:
                v = ev(at, E, memo)
                if isinstance(v, bool): v = Fraction(int(v))
                if isinstance(v, tuple): v = Fraction(hash(v) % 1009, 7)
                if p < 0 and v == 0: raise Reject()
                x = x * (v ** p)
            r = r + x
        return r
    if o == 'atom': return ev(a[0], E, memo)
    if o == 'true': return True
    if o == 'false': return False
    if o == 'and': return all(ev(x, E, memo) for x in a)
    if o == 'or': return any(ev(x, E, memo) for x in a)
    if o == 'not': return not ev(a[0], E, memo)
    if o == 'ite': return ev(a[1], E, memo) if ev(a[0], E, memo) else ev(a[2], E, memo)
    if o == 'le0': return ev(a[0], E, memo) <= 0
    if o == 'lt0': return ev(a[0], E, memo) < 0
    if o == 'nlt0': return ev(a[0], E, memo) >= 0
    if o == 'eq0': return ev(a[0], E, memo) == 0
    if o == 'eq': return ev(a[0], E, memo) == ev(a[1], E, memo)
    if o == 'min': return min(ev(a[0], E, memo), ev(a[1], E, memo))
    if o == 'max': return max(ev(a[0], E, memo), ev(a[1], E, memo))
    if o == 'abs': return abs(ev(a[0], E, memo))
    if o == 'floor': return Fraction(math.floor(ev(a[0], E, memo)))
    if o == 'ceil': return Fraction(math.ceil(ev(a[0], E, memo)))
    if o in ('trunc', 'ipart'): return Fraction(math.trunc(ev(a[0], E, memo)))
    if o == 'narrow': return ev(a[1], E, memo)
    if o in ('idiv', 'mod'):
        x, y = ev(a[0], E, memo), ev(a[1], E, memo)
        if y == 0: raise Reject()
        q = Fraction(math.trunc(x / y))
        return q if o == 'idiv' else x - q * y
    if o == 'ceildiv':
        x, y = ev(a[0], E, memo), ev(a[1], E, memo)
        return Fraction(max(0, math.ceil(x / y)))
    if o == 'ceilr': return Fraction(math.ceil(ev(a[0], E, memo)))
    if o == 'sqrt':
        v = ev(a[0], E, memo)
        if v < 0: raise Reject()
        return math.sqrt(v)
    if o in ('exp', 'log', 'sin', 'cos', 'tan', 'atan', 'acos', 'asin', 'tanh', 'lgamma', 'erf'):
        try: return getattr(math, o)(fl(ev(a[0], E, memo)))
        except (ValueError, OverflowError): raise Reject()
    if o in ('atan2', 'hypot', 'fmod', 'pow'):
        try: return getattr(math, o)(fl(ev(a[0], E, memo)), fl(ev(a[1], E, memo)))
        except (ValueError, OverflowError): raise Reject()
    if o in ('Sum', 'Prod'):
        K, n, body = a; k = ev(n, E, memo)
        if k > 30: raise Reject()
        r = Fraction(0) if o == 'Sum' else Fraction(1)
        for i in range(int(max(k, 0))):
            x = ev(tm.subst(body, {K: num(i)}), E, memo)
            r = r + x if o == 'Sum' else r * x
        return r
    if o in OPAQUE: raise Opaque(o)
    if o in ('obj',): raise Opaque(o)
    if o in ('maparr', 'fillarr', 'resized', 'list', 'variant', 'span', 'tuple'):
        return (o,) + tuple(ekey(x, E, memo) for x in a)
    # leaf or uninterpreted function of its (evaluated) arguments
    key = (o,) + tuple(ekey(x, E, memo) for x in a)
    return bool(E.leaf(key, t)) if o == 'truth' else E.leaf(key, t)

def close(x, y):
    if isinstance(x, float) or isinstance(y, float):
        try: return abs(float(x) - float(y)) <= 1e-9 * (1 + abs(float(x)) + abs(float(y)))
        except (TypeError, ValueError, OverflowError): return x == y
    return x == y

def plainleaf(t): return t.op in ('K', 'sym', 'ld', 'arg') and not any(isinstance(a, T) and const(a) is None and a.op not in ('this', 'arg', 'sym', 'deref', 'new', 'glob', 'K') or isinstance(a, tuple) and any(isinstance(q, T) and const(q) is None for q in a) for a in t.args)
def repair(E, rng, cons, hard):
    """values of leaves that satisfy the linear constraints (the first `hard` of them are assumptions), found by local repair"""
    n_ = lambda q: q.numerator if q.denominator == 1 else q
    at = []; seen = set()
    for c in cons:
        for a in c[0]:
            if a not in seen: seen.add(a); at.append(a)
    val = {a: rng.randint(E.lo, E.hi) if E.ints(a) else Fraction(rng.randint(-40, 40), rng.choice([1, 2, 3, 7])) for a in at if a not in E.dom}
    for a in at:
        if a in E.dom: d = E.dom[a]; d = d[0] if isinstance(d, tuple) else d; val[a] = Fraction(d(E.rng) if callable(d) else d)
    cons = [([(a, n_(Fraction(k))) for a, k in c[0].items()], n_(Fraction(c[1])), c[2]) for c in cons]
    def value(c):
        v = c[1]
        for a, k in c[0]: v += k * val[a]
        return v
    def bad(c):
        v = value(c); return v > 0 if c[2] == 'le0' else v >= 0 if c[2] == 'lt0' else v != 0
    for step in range(60):
        b = [c for c in cons if bad(c)]
        if not b: break
        c = rng.choice(b); l = [q for q in c[0] if q[0] not in E.dom]
        if not l: break
        a, k = rng.choice(l); v = value(c); i = E.ints(a)
        sl = 0 if c[2] == 'eq0' else rng.choice([0, 0, 1, 2, 3]) + (c[2] == 'lt0' and i) if i else rng.choice([Fraction(1, 3), 1, 2, Fraction(17, 7)])
        w = val[a] - Fraction(v + sl) / k
        if i:
            if c[2] != 'eq0': w = math.ceil(w) if k < 0 else math.floor(w)
            elif w.denominator != 1: continue
            w = int(w)
            if w < E.lo: continue
        val[a] = w
    for a in at:
        if a not in E.dom: E.forced[a] = (tm.ZERO, 1, Fraction(val[a]))
def scales(*ts):
    out = set()
    for t in ts:
        for a in tm.atoms(t):
            if a.op == 'poly':
                for m, c in a.args[0]: out |= {int(abs(v)) for v in (c.numerator, c.denominator) if 5 < abs(v) <= 256}
    return sorted(out)
def same(x, y, assume=(), ints=None, n=200, lo=0, hi=None, dom=None, seed=1):
    if x is y: return True
    rng = random.Random(seed); ok = 0; opaque = 0
    bounds = []      # linear comparisons that a guided sample can put on their boundary
    for t in set(tm.atoms(x)) | set(tm.atoms(y)):
        if t.op in ('eq0', 'le0', 'lt0'):
            for m, c in tm.pd(t.args[0]).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('K', 'sym', 'ld', 'arg') and not any(q is not m[0][0] and m[0][0] in tm.atoms(q) for mm in tm.pd(t.args[0]) for q, _ in mm):
                    bounds.append((m[0][0], tm.sub(t.args[0], tm.mul(num(c), m[0][0])), c))
    bounds.sort(key=lambda b: tm.show(b[0]) + tm.show(b[1]))
    lin = []         # assumptions that are linear in plain leaves, solved by local repair
    def flat(c): return [y for x in c.args for y in flat(x)] if c.op == 'and' else [c]
    for c in (y for x in assume for y in flat(x)):
        if c.op in ('le0', 'lt0', 'eq0', 'nlt0'):
            p = tm.pd(c.args[0]); sg = -1 if c.op == 'nlt0' else 1
            if all(len(m) == 0 or len(m) == 1 and m[0][1] == 1 and plainleaf(m[0][0]) for m in p):
                lin.append(({m[0][0]: sg * k for m, k in p.items() if m}, sg * p.get((), 0), 'le0' if c.op == 'nlt0' else c.op))
    lb = [({m[0][0]: k for m, k in tm.pd(t).items() if m}, tm.pd(t).get((), 0)) for t in {t.args[0] for y in (x, y) for t in tm.atoms(y) if t.op in ('eq0', 'le0', 'lt0')} if all(len(m) == 0 or len(m) == 1 and m[0][1] == 1 and plainleaf(m[0][0]) for m in tm.pd(t))]
    lb.sort(key=lambda q: sorted((tm.show(a), k) for a, k in q[0].items()).__repr__())
    big = scales(x, y) if hi is None else []      # numbers in the terms that small samples would never reach
    if big: n *= 4
    for it in range(n * 6):
        E = Env(rng, ints, lo, hi if hi is not None else rng.choice(big) * rng.choice([1, 2, 5]) if big and it % 5 > 1 else 60 if it % 5 == 4 else 6, dom); memo = {}
        if bounds and it % 2:
            for _ in range(rng.randint(1, 3)):
                b = rng.choice(bounds); E.forced[b[0]] = (b[1], b[2], rng.choice([0, 0, 0, 1, -1] if E.ints(b[0]) and b[0] not in E.dom else [0, 0, Fraction(1, 4), Fraction(-1, 4), Fraction(1, 3000), Fraction(-1, 3000), Fraction(1, 10**7), Fraction(-1, 10**7)]))
        if lin and it % 4: repair(E, rng, lin + ([(k, c0 + rng.choice([0, 0, 1, -1]), 'eq0') for k, c0 in rng.sample(lb, min(len(lb), rng.randint(1, 2)))] if lb and it % 2 else []), len(lin))
        try:
            if not all(ev(c, E, memo) for c in assume): continue
            if not close(ev(x, E, memo), ev(y, E, memo)): 
                same.witness = {tm.show(k[0]) if isinstance(k[0], T) else str(k): str(v) for k, v in E.vals.items()}
                return False
            ok += 1
        except Reject: continue
        except Opaque: opaque += 1
        except (TypeError, OverflowError, ZeroDivisionError): opaque += 1
        if ok >= n: break
        if opaque > 60 and ok == 0: return None
    return True if ok >= 20 and opaque == 0 else None
def holds(c, assume=(), **k):
    """is the boolean term valid under the assumptions?  True / False (refuted) / None"""
    return same(c, TRUE, assume, **k)
