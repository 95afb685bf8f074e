"""Hash-consed value terms with a polynomial normal form for arithmetic and a canonical form for
comparisons.  Two expressions that are algebraically equal over their leaves get the same object."""
from fractions import Fraction
from functools import lru_cache

class T:
    __slots__ = ('op', 'args', 'uid', '_h', 'depth', 'isc')
    _tab = {}
    def __new__(cls, op, *args):
        key = (op, args)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls); t.op = op; t.args = args; t.uid = len(cls._tab); t._h = hash(key)
            d = 0
            for a in args:
                if isinstance(a, T): d = max(d, a.depth)
            t.depth = d + 1; t.isc = op == 'poly' and (not args[0] or (len(args[0]) == 1 and not args[0][0][0]))
            cls._tab[key] = t
        return t
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.uid < o.uid

# ------------------------------------------------------------------ polynomials
def _mk(d):
    items = sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: tuple((a.uid, p) for a, p in x[0]))
    return T('poly', tuple(items))
@lru_cache(1 << 18)
def num(x): return _mk({(): Fraction(x)})
ZERO = num(0); ONE = num(1)
def is_poly(t): return t.op == 'poly'
def pd(t):
    """term -> dict mono->coef"""
    if t.op == 'poly': return dict(t.args[0])
    return {((t, 1),): Fraction(1)}
def norm(t):
    """single-atom polynomials stay atoms"""
    if t.op == 'poly' and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return t
def const(t):
    """Fraction if the term is a numeric constant"""
    if t.op == 'poly':
        if not t.args[0]: return Fraction(0)
        if len(t.args[0]) == 1 and t.args[0][0][0] == (): return t.args[0][0][1]
    if t.op == 'true': return Fraction(1)
    if t.op == 'false': return Fraction(0)
    return None
@lru_cache(1 << 18)
def add(a, b):
    if a.op in ('true', 'false'): a = num(1 if a.op == 'true' else 0)
    if b.op in ('true', 'false'): b = num(1 if b.op == 'true' else 0)
    d = pd(a)
    for m, c in pd(b).items(): d[m] = d.get(m, 0) + c
    return norm(_mk(d))
@lru_cache(1 << 18)
def neg(a): return norm(_mk({m: -c for m, c in pd(a).items()}))
def sub(a, b): return add(a, neg(b))
def _mmul(m1, m2):
    d = {}
    for a, p in m1 + m2: d[a] = d.get(a, 0) + p
    return tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda x: x[0].uid))
SQRT = 'sqrt'
def mul(a, b):
    if a.op in ('true', 'false'): a = num(1 if a.op == 'true' else 0)
    if b.op in ('true', 'false'): b = num(1 if b.op == 'true' else 0)
    if const(a) == 0 or const(b) == 0: return ZERO
    d = {}
    pa, pb = pd(a), pd(b)
    if len(pa) * len(pb) > 4000: return T('bigmul', *sorted((a, b)))
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2); c = c1 * c2
            # sqrt(q)^2 = q for constant q
            while True:
                for i, (x, p) in enumerate(m):
                    if x.op == 'sqrt' and p >= 2 and const(x.args[0]) is not None:
                        c *= const(x.args[0]); m = m[:i] + (((x, p - 2),) if p > 2 else ()) + m[i+1:]; break
                else: break
            d[m] = d.get(m, 0) + c
    return norm(_mk(d))
def inv(a):
    c = const(a)
    if c is not None:
        return num(1 / c) if c != 0 else T('inv0')
    p = pd(a)
    if len(p) == 1:
        (m, c), = p.items()
        return norm(_mk({tuple((x, -q) for x, q in m): 1 / c}))
    # scale to leading coefficient 1
    lead = a.args[0][0][1]
    q = norm(_mk({m: c / lead for m, c in p.items()}))
    return norm(_mk({((T('atom', q), -1),): 1 / lead}))
def div(a, b): 
    r = mul(a, inv(b))
    # (p)/(p): recognise exact cancellation of a multi-term polynomial
    if a.op == 'poly' and b.op == 'poly' and len(pd(b)) > 1:
        pa, pb = pd(a), pd(b)
        if set(pa) == set(pb):
            k = None
            for m in pa:
                q = pa[m] / pb[m]
                if k is None: k = q
                elif k != q: k = None; break
            if k is not None: return num(k)
    return r
def powi(a, n):
    r = ONE
    for _ in range(abs(n)): r = mul(r, a)
    return inv(r) if n < 0 else r

# ------------------------------------------------------------------ booleans
TRUE = T('true'); FALSE = T('false')
def boolt(b): return TRUE if b else FALSE
def isbool(t): return t.op in ('true', 'false', 'le0', 'lt0', 'eq0', 'eq', 'and', 'or', 'not')
def notb(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le0' : 
        # integer: p<=0 negated is p>=1, i.e. 1-p<=0
        return le0(sub(ONE, a.args[0]), True)
    if a.op == 'lt0': return T('nlt0', a.args[0])     # real: p>=0
    if a.op == 'nlt0': return T('lt0', a.args[0])
    if a.op == 'and': return orb(*[notb(x) for x in a.args])
    if a.op == 'or': return andb(*[notb(x) for x in a.args])
    return T('not', a)
def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op: out.extend(x.args)
        else: out.append(x)
    return out
def andb(*xs):
    xs = _flat('and', xs); s = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE or x in s: continue
        if notb(x) in s: return FALSE
        s.append(x)
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return T('and', *sorted(s))
def orb(*xs):
    xs = _flat('or', xs); s = []
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE or x in s: continue
        if notb(x) in s: return TRUE
        s.append(x)
    if not s: return FALSE
    if len(s) == 1: return s[0]
    return T('or', *sorted(s))
def le0(p, integer):
    c = const(p)
    if c is not None: return boolt(c <= 0)
    if integer: return T('le0', p)
    return T('nlt0', neg(p))
def lt0(p, integer):
    c = const(p)
    if c is not None: return boolt(c < 0)
    if integer: return T('le0', add(p, ONE))
    # scale-invariant real comparison: divide by |leading coefficient|
    return T('lt0', p)
@lru_cache(1 << 18)
def eqt(a, b):
    if a is b: return TRUE
    if a in (TRUE, FALSE) and b in (TRUE, FALSE): return FALSE
    for x, y in ((a, b), (b, a)):
        if x is TRUE and (isbool(y) or y.op == 'nlt0'): return y
        if x is FALSE and (isbool(y) or y.op == 'nlt0'): return notb(y)
    if a.op == 'ptr' and b.op == 'ptr':
        if a.args[0] is b.args[0] and a.args[1][:-1] == b.args[1][:-1] and a.args[1] and isinstance(a.args[1][-1], T) and isinstance(b.args[1][-1], T):
            return eqt(a.args[1][-1], b.args[1][-1])
    for x, y in ((a, b), (b, a)):
        if x.op == 'null' and y.op in ('ptr', 'new'): return FALSE
    if a.op == 'type' and b.op == 'type': return FALSE
    if a.op == 'str' and b.op == 'str': return FALSE
    if is_num(a) and is_num(b):
        p = sub(a, b); c = const(p)
        if c is not None: return boolt(c == 0)
        lead = p.args[0][0][1] if p.op == 'poly' else 1
        if lead < 0: p = neg(p)
        return T('eq0', p)
    # ite lifting for constants
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            l, r = eqt(x.args[1], y), eqt(x.args[2], y)
            if l in (TRUE, FALSE) or r in (TRUE, FALSE): return ite(x.args[0], l, r)
    return T('eq', *sorted((a, b)))
NONNUM = {'ptr', 'obj', 'null', 'str', 'clo', 'type', 'variant', 'span', 'functor', 'bind', 'path', 'tuple', 'new', 'undef', 'and', 'or', 'not', 'le0', 'lt0', 'nlt0', 'eq0', 'eq', 'true', 'false'}
def is_num(t): return t.op not in NONNUM
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return notb(c)
    if isbool(a) and isbool(b): return orb(andb(c, a), andb(notb(c), b))
    # canonical orientation of integer comparisons
    if c.op == 'le0':
        n = notb(c)
        if n.uid < c.uid: return T('ite', n, b, a)
    if c.op == 'lt0' or c.op == 'nlt0':
        n = notb(c)
        if c.op == 'nlt0': return T('ite', n, b, a)
    return T('ite', c, a, b)

def minmax(op, a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None: return num(min(ca, cb) if op == 'min' else max(ca, cb))
    if a is b: return a
    return T(op, *sorted((a, b)))

# ------------------------------------------------------------------ traversal
def atoms(t, out=None):
    """set of leaf atoms / applications directly inside polynomials, recursively all subterms"""
    if out is None: out = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in out: continue
            out.add(x)
            if x.op == 'poly':
                for m, c in x.args[0]:
                    for a, p in m: st.append(a)
            else: st.extend(x.args)
        elif isinstance(x, tuple): st.extend(x)
    return out
def subst(t, m, memo=None):
    """replace subterms (dict T->T), rebuilding normal forms"""
    if memo is None: memo = {}
    if t in m: return m[t]
    if t in memo: return memo[t]
    if t.op == 'poly':
        r = ZERO
        for mono, c in t.args[0]:
            x = num(c)
            for a, p in mono: x = mul(x, powi(subst(a, m, memo), p))
            r = add(r, x)
    else:
        na = tuple(_sub(a, m, memo) for a in t.args)
        r = t if na == t.args else rebuild(t.op, na)
    memo[t] = r
    return r
def _sub(a, m, memo):
    if isinstance(a, T): return subst(a, m, memo)
    if isinstance(a, tuple): return tuple(_sub(x, m, memo) for x in a)
    return a
def rebuild(op, a):
    if op == 'and': return andb(*a)
    if op == 'or': return orb(*a)
    if op == 'not': return notb(a[0])
    if op == 'ite': return ite(*a)
    if op == 'eq': return eqt(*a)
    if op == 'eq0': return eqt(a[0], ZERO)
    if op == 'le0': return le0(a[0], True)
    if op == 'lt0': return lt0(a[0], False)
    if op == 'nlt0': return notb(lt0(a[0], False))
    if op in ('min', 'max'): return minmax(op, *a)
    if op == 'atom': return norm(a[0]) if False else T('atom', *a)
    if op == 'truth' and isbool(a[0]): return a[0]
    if op in ('b|', 'b&') and (isbool(a[0]) or isbool(a[1])):
        x, y = (v if isbool(v) else T('truth', v) for v in a)
        return orb(x, y) if op == 'b|' else andb(x, y)
    if op == 'proj':
        from interp import proj
        return proj(a[0], a[1])
    return T(op, *a)

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '.'.join(show(x, d) for x in t)
        return str(t)
    if d > 14: return '…'
    if t.op == 'poly':
        if not t.args[0]: return '0'
        s = []
        for m, c in t.args[0]:
            f = [show(a, d+1) + ('' if p == 1 else '^%d' % p) for a, p in m]
            if c != 1 or not f: f.insert(0, str(c))
            s.append('*'.join(f))
        return '(' + ' + '.join(s) + ')' if len(s) > 1 else s[0]
    if t.op == 'ptr': return '&' + show(t.args[0], d+1) + pathstr(t.args[1], d+1)
    if t.op == 'ld': return show(t.args[0], d+1) + pathstr(t.args[1], d+1)
    if t.op in ('arg', 'sym', 'this', 'K', 'str', 'type', 'mu', 'enum', 'local'): return t.op[0] + ':' + ','.join(show(a, d+1) for a in t.args) if t.op != 'this' else 'this'
    if t.op == 'le0': return show(t.args[0], d+1) + '<=0'
    if t.op == 'lt0': return show(t.args[0], d+1) + '<0'
    if t.op == 'nlt0': return show(t.args[0], d+1) + '>=0'
    if t.op == 'eq0': return show(t.args[0], d+1) + '==0'
    if t.op == 'eq': return show(t.args[0], d+1) + '==' + show(t.args[1], d+1)
    if t.op in ('and', 'or'): return '(' + (' %s ' % t.op).join(show(a, d+1) for a in t.args) + ')'
    if not t.args: return t.op
    return t.op + '(' + ', '.join(show(a, d+1) for a in t.args) + ')'
def pathstr(p, d=0): return ''.join('.' + x if isinstance(x, str) else '[' + show(x, d) + ']' for x in p)
