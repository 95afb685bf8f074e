"""Gated value numbering over the extracted program: every function is summarised once (no path is
enumerated, no input chosen) as a structured effect tree whose leaves carry canonical value terms.
Branches join with gates, loops are summarised by their recurrences, library calls are events."""
import re, sys, time
from fractions import Fraction
from functools import lru_cache
import terms as tm
from terms import T, num, ZERO, ONE, TRUE, FALSE, const, add, sub, mul, div, neg, ite, andb, orb, notb, eqt
sys.setrecursionlimit(20000)

@lru_cache(None)
def strip_ta(s):
    if 'operator' in s:
        i = s.rfind('operator'); return strip_ta(s[:i]) + re.sub(r'<.*>$', '', s[i:]) if s[i:] not in ('operator<', 'operator<<', 'operator>', 'operator>>', 'operator->', 'operator<=', 'operator>=', 'operator<=>') else strip_ta(s[:i]) + s[i:]
    out = []; n = 0
    for ch in s:
        if ch == '<': n += 1
        elif ch == '>': n -= 1
        elif n == 0: out.append(ch)
    return ''.join(out)

class LV:
    __slots__ = ('root', 'path', 'born')
    def __init__(s, root, path=(), born=None): s.root = root; s.path = path; s.born = born
    def sub(s, e): return LV(s.root, s.path + (e,))
    def ptr(s): return T('ptr', s.root, s.path)
    def key(s): return (s.root, s.path)
    def __repr__(s): return tm.show(s.root) + tm.pathstr(s.path)
def deref(p):
    if p.op == 'ptr': return LV(p.args[0], p.args[1])
    if p.op == 'padd': return LV(T('deref', p.args[0]), (p.args[1],))
    if p.op == 'mapit': return LV(T('mapentry', *p.args))
    return LV(T('deref', p), ())
def padd(p, n):
    if p.op == 'ptr' and p.args[1] and isinstance(p.args[1][-1], T):
        return T('ptr', p.args[0], p.args[1][:-1] + (add(p.args[1][-1], n),))
    if p.op == 'ite': return ite(p.args[0], padd(p.args[1], n), padd(p.args[2], n))
    if const(n) == 0: return p
    if p.op == 'padd': return T('padd', p.args[0], add(p.args[1], n))
    return T('padd', p, n)
def pdiff(a, b):
    if a.op == 'ptr' and b.op == 'ptr' and a.args[0] is b.args[0] and a.args[1][:-1] == b.args[1][:-1] and a.args[1] and isinstance(a.args[1][-1], T):
        return sub(a.args[1][-1], b.args[1][-1])
    def sp(x):
        if x.op == 'padd': return x.args[0], x.args[1]
        return x, ZERO
    (p, i), (q, j) = sp(a), sp(b)
    if p is q: return sub(i, j)
    return T('pdiff', a, b)

# ---------------------------------------------------------------- effect tree
class Node:
    kind = '?'
class Ev(Node):
    kind = 'ev'
    def __init__(s, name, obj, args, res, ln, fn, pc, extra=None): s.name = name; s.obj = obj; s.args = args; s.res = res; s.ln = ln; s.fn = fn; s.pc = pc; s.extra = extra
    def __repr__(s): return '%s(%s%s)' % (s.name, (tm.show(s.obj) + '; ') if s.obj is not None else '', ', '.join(tm.show(a) for a in s.args))
class St(Node):
    kind = 'st'
    def __init__(s, root, path, val, ln, fn, pc, old=None): s.root = root; s.path = path; s.val = val; s.ln = ln; s.fn = fn; s.pc = pc; s.old = old
    def __repr__(s): return '%s%s := %s' % (tm.show(s.root), tm.pathstr(s.path), tm.show(s.val))
class Use(Node):          # dereference of a non-local pointer value
    kind = 'use'
    def __init__(s, ptr, ln, fn, pc): s.ptr = ptr; s.ln = ln; s.fn = fn; s.pc = pc
    def __repr__(s): return 'deref %s' % tm.show(s.ptr)
class If(Node):
    kind = 'if'
    def __init__(s, cond, a, b, ln, fn=None): s.cond = cond; s.a = a; s.b = b; s.ln = ln; s.fn = fn
class Loop(Node):
    kind = 'loop'
    def __init__(s, label): s.label = label; s.body = []; s.trips = None; s.cond = None; s.depth = 0; s.carried = {}; s.breaks = False; s.ln = 0; s.pc = (); s.fn = None; s.K = None; s.elem = None
class Call(Node):
    kind = 'call'
    def __init__(s, fn, label, ln): s.fn = fn; s.label = label; s.body = []; s.ln = ln; s.ret = None; s.this = None; s.args = []
class Block(Node):
    kind = 'block'
    def __init__(s, label): s.label = label; s.body = []
class Exit(Node):
    kind = 'exit'
    def __init__(s, what, label, val, ln, fn, pc): s.what = what; s.label = label; s.val = val; s.ln = ln; s.fn = fn; s.pc = pc

def dump(nodes, ind=0, out=None, st=True):
    top = out is None
    if top: out = []
    p = '  ' * ind
    for n in nodes:
        if n.kind == 'if':
            out.append('%sif %s   [%s]' % (p, tm.show(n.cond), n.ln)); dump(n.a, ind + 1, out, st)
            if n.b: out.append(p + 'else'); dump(n.b, ind + 1, out, st)
        elif n.kind == 'loop': out.append('%sloop#%s trips=%s cond=%s%s carried=%s' % (p, n.label, tm.show(n.trips) if n.trips is not None else '?', tm.show(n.cond) if n.cond is not None else '?', ' breaks' if n.breaks else '', {k: (tm.show(v[0]), tm.show(v[1])) for k, v in n.carried.items()})); dump(n.body, ind + 1, out, st)
        elif n.kind == 'call': out.append('%s> %s [%s]' % (p, n.fn['qs'], n.ln)); dump(n.body, ind + 1, out, st)
        elif n.kind == 'block': out.append('%sblock#%s' % (p, n.label)); dump(n.body, ind + 1, out, st)
        elif n.kind == 'exit': out.append('%sexit %s#%s %s' % (p, n.what, n.label, tm.show(n.val) if isinstance(n.val, T) else n.val or ''))
        elif n.kind == 'st':
            if st: out.append('%s%r  [%s]' % (p, n, n.ln))
        else: out.append('%s%r  [%s]' % (p, n, n.ln))
    if top: return '\n'.join(out)

# ---------------------------------------------------------------- abstract store
class State:
    __slots__ = ('store', 'pc', 'dead', 'own')
    def __init__(s): s.store = {}; s.pc = (); s.dead = False; s.own = True
    def copy(s):
        n = State(); n.store = s.store; n.pc = s.pc; n.dead = s.dead; n.own = s.own = False; return n
    def wr(s):
        if not s.own: s.store = dict(s.store); s.own = True
        return s.store
    def left(s):
        """the dead state that remains behind when control has left with s"""
        n = State(); n.store = s.store; n.pc = s.pc; n.dead = True; n.own = False; return n

class SMap(dict):
    """store of one object: path -> value in the order of writing; knows whether a path is symbolic and which strict prefixes its paths have"""
    __slots__ = ('sym', 'pre')
    @staticmethod
    def of(m):
        n = SMap(m)
        if isinstance(m, SMap): n.sym = m.sym; n.pre = dict(m.pre)
        else:
            n.sym = False; n.pre = {}
            for q in m: n.note(q, 1)
        return n
    def note(s, q, k):
        pre = s.pre
        for i in range(len(q)):
            x = q[i]
            if k > 0 and not s.sym and isinstance(x, T) and not x.isc: s.sym = True
            h = q[:i]; pre[h] = pre.get(h, 0) + k
            if not pre[h]: del pre[h]
    def put(s, path, v):
        if path in s.pre:
            n = len(path)
            for q in [q for q in s if len(q) > n and q[:n] == path]: del s[q]; s.note(q, -1)
        if s.pop(path, None) is None: s.note(path, 1)
        s[path] = v
def alias_cond(pa, pb):
    """condition under which two index paths of equal length denote the same location (FALSE if never)"""
    c = TRUE
    for x, y in zip(pa, pb):
        if x is y: continue
        if isinstance(x, str) or isinstance(y, str):
            if x != y: return FALSE
        elif x.isc and y.isc: return FALSE
        else:
            c = andb(c, eqt(x, y))
            if c is FALSE: return FALSE
    return c

def proj(v, path):
    if not path: return v
    if v.op == 'obj': return mini_read(dict(v.args[1]), v.args[0], path)
    if v.op == 'ite': return ite(v.args[0], proj(v.args[1], path), proj(v.args[2], path))
    if v.op == 'ld': return T('ld', v.args[0], v.args[1] + path)
    if v.op == 'list':
        if isinstance(path[0], T):
            c = const(path[0])
            if c is not None and c.denominator == 1:
                if 0 <= c < len(v.args): return proj(v.args[int(c)], path[1:])
                return T('oob', v, path[0])
            r = None
            for i in range(len(v.args) - 1, -1, -1):
                x = proj(v.args[i], path[1:]); r = x if r is None else ite(eqt(path[0], num(i)), x, r)
            if r is not None: return r
    if v.op == 'fillarr' and isinstance(path[0], T): return proj(v.args[0], path[1:])
    if v.op == 'resized' and isinstance(path[0], T): return ite(tm.lt0(sub(path[0], v.args[1]), True), proj(v.args[0], path), proj(v.args[2], path[1:]))
    if v.op == 'variant' and isinstance(path[0], str) and path[0] == '#get:' + v.args[0].args[0]: return proj(v.args[1], path[1:])
    if v.op == 'fold' and len(v.args) > 5 and isinstance(path[0], str) and v.args[3].op == 'obj' and v.args[3].args[0] is v.args[5] and all(p and (isinstance(p[0], T) or p[0] != path[0]) for p, _ in v.args[3].args[1]):
        return proj(v.args[2], path)     # a field that no iteration writes
    if v.op == 'fold' and len(v.args) > 5 and path == ('#size',) and proj(v.args[3], path) is proj(v.args[5], path): return proj(v.args[2], path)
    if v.op == 'maparr' and path == ('#size',): return proj(v.args[3], path)
    if v.op == 'str' and isinstance(v.args[0], str) and len(path) == 1:
        if path[0] == '#size': return num(len(v.args[0]))
        c = const(path[0]) if isinstance(path[0], T) else None
        if c is not None and 0 <= c <= len(v.args[0]): return num(ord(v.args[0][int(c)]) if c < len(v.args[0]) else 0)
    if v.op == 'strof' and isinstance(path[0], T): return proj(v.args[0], path)
    if v.op == 'strof' and path == ('#size',): return v.args[1]
    if v.op == 'maparr' and isinstance(path[0], T):
        K, idx, val, base, lo, hi = v.args[:6]
        # element idx(K)=a+K written with val(K)
        k = sub(path[0], sub(idx, K))
        if K not in tm.atoms(k): return proj(tm.subst(val, {K: k}), path[1:])
    if v is ZERO: return ZERO
    if v.op == 'undef': return T('undef', *(v.args + (path,)))
    if v.op == 'proj': return T('proj', v.args[0], v.args[1] + path)
    return T('proj', v, path)

def raw_read(m, base, path):
    """value of the innermost stored ancestor-or-self, ignoring deeper overrides"""
    for k in range(len(path), -1, -1):
        if path[:k] in m: return proj(m[path[:k]], path[k:])
    return base(path) if callable(base) else proj(base, path)

def mini_read(m, base, path):
    n = len(path)
    if not m: return base(path) if callable(base) else proj(base, path)
    if isinstance(m, SMap) and not m.sym and path not in m.pre:
        for x in path:
            if isinstance(x, T) and not x.isc: break
        else:       # no symbolic alias, nothing stored below: the innermost stored ancestor-or-self has the value
            for k in range(n, -1, -1):
                h = path[:k]
                if h in m: return proj(m[h], path[k:])
            return base(path) if callable(base) else proj(base, path)
    over = []
    for q in reversed(m):
        k = len(q)
        if k <= n:
            c = TRUE if q == path[:k] else alias_cond(q, path[:k])
            if c is FALSE: continue
            if c is not TRUE: break
            over.reverse(); return mk_obj(proj(m[q], path[k:]), over)
        c = TRUE if q[:n] == path else alias_cond(q[:n], path)
        if c is FALSE: continue
        if c is not TRUE: break
        over.append((q[n:], m[q]))
    else:
        over.reverse(); return mk_obj(base(path) if callable(base) else proj(base, path), over)
    order = list(m.items())
    over = []
    res = base(path) if callable(base) else proj(base, path)
    for q, v in order:
        if len(q) <= n:
            c = alias_cond(q, path[:len(q)])
            if c is FALSE: continue
            x = proj(v, path[len(q):])
            if c is TRUE: res = x; over = []
            else: res = ite(c, x, res)
        else:
            c = alias_cond(q[:n], path)
            if c is FALSE: continue
            if c is TRUE: over.append((q[n:], v))
            else: over.append((q[n:], ite(c, v, proj(mk_obj(res, over), q[n:]))))
    return mk_obj(res, over)
def mk_obj(base, over):
    if not over: return base
    d = {}
    for p, v in over:
        for q in [q for q in d if len(q) >= len(p) and q[:len(p)] == p]: del d[q]
        d[p] = v
    # drop overrides equal to the base projection
    d2 = {}
    for p, v in d.items():
        if not d2 and base.op != 'obj' and proj(base, p) is v and not any(alias_cond(p[:min(len(p), len(q))], q[:min(len(p), len(q))]) is not FALSE and q != p for q in d): continue
        d2[p] = v
    if not d2: return base
    if base.op == 'obj':
        dd = dict(base.args[1])
        for p, v in d2.items():
            for q in [q for q in dd if len(q) >= len(p) and q[:len(p)] == p]: del dd[q]
            dd[p] = v
        return mk_obj_raw(base.args[0], dd)
    return mk_obj_raw(base, d2)
def mk_obj_raw(base, d):
    sym = any(isinstance(x, T) and const(x) is None for p in d for x in p)
    items = tuple(d.items()) if sym else tuple(sorted(d.items(), key=lambda kv: tm.pathstr(kv[0])))
    # an object whose overrides cover everything read from an undefined base stays canonical
    return T('obj', base, items)

class Frame:
    def __init__(s, fn, parent=None): s.fn = fn; s.vars = {}; s.this = parent.this if parent else None; s.parent = parent; s.rets = []; s.label = None; s.retref = False; s.scope0 = 0
    def lookup(s, i):
        f = s
        while f is not None:
            if i in f.vars: return f.vars[i]
            f = f.parent
        return None

class Program:
    def __init__(s, d):
        s.d = d; s.types = d['types']; s.F = {f['id']: f for f in d['funcs']}
        s.by = {}
        for f in d['funcs']:
            f['qs'] = strip_ta(f['qn']); s.by.setdefault(f['qs'], []).append(f)
        s.rec = {}; s.rect = {}
        for r in d['records']: s.rec.setdefault(r['qn'], r); s.rect[s.types[r['t']]] = r
        s.glob = {}
        for g in d['globals']: s.glob[g['id']] = g
        s.enums = {}; s.enumnames = {e['qn'] for e in d['enums']}
        for e in d['enums']:
            for c in e['c']: s.enums[e['qn'] + '::' + c['n']] = int(c['v'])
    def find(s, qs, pred=None):
        return [f for f in s.by.get(qs, []) if pred is None or pred(f)]
    def ty(s, i): return s.types[i] if i is not None and i >= 0 else ''

FLOATY = {'float', 'double', 'long double'}
INTW = {'unsigned int': 4, 'int': 4, 'short': 2, 'unsigned short': 2, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'bool': 1, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8}
@lru_cache(None)
def unq(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p): t = t[len(p):]; ch = True
        for p in (' const', '&&', '&', ' '):
            if t.endswith(p): t = t[:-len(p)]; ch = True
    return t
@lru_cache(None)
def arr_size(t):
    t = unq(t)
    m = re.match(r'std::array<.*, (\d+)>$', t) or re.match(r'.*\[(\d+)\]$', t) or re.match(r'std::span<.*, (\d+)>$', t) or re.match(r'(?:Vector|VectorView)<.*, (\d+)>$', t)
    if m and 'extent' not in t: 
        n = int(m.group(1))
        return None if n > 10**6 else n
    m = re.match(r'(?:\w*)(RZ|ZR)(?:Coord|Field|Index)?Vector', t)
    return None

class Unsupported(Exception): pass
class Budget(Exception): pass

from models import Models
from fsmodel import FSModel

class Interp(FSModel, Models):
    def __init__(s, prog, policy=None, unroll=40, budget=400000):
        s.P = prog; s.policy = policy or (lambda f: 'inline'); s.st = State(); s.out = []; s.frames = []; s.ctr = 0
        s.wlogs = []; s.loopdepth = 0; s.unroll = unroll; s.steps = budget; s.callstack = []; s.clos = {}; s.unknown = []; s.thrown = []
        s.brk = []; s.scopes = []; s.dcache = {}; s.analysed = set(); s.ncalls = 0; s.globvals = {}; s.hooks = {}; s.trackuse = False; s.maxdepth = 60
        s.lmap = {}; s.functy = ''; s.ltypes = {}
    def uid(s): s.ctr += 1; return s.ctr
    def fresh(s, kind='local', *a): return LV(T(kind, *(a + (s.uid(),))))
    # -------------------------------------------------- store
    def defval(s, root): return lambda path: T('ld', root, path)
    def read(s, lv, st=None):
        st = st or s.st
        if lv.root.op == 'deref' and lv.root.args[0].op == 'ite':
            s.steps -= 5
            if s.steps < 0: raise Budget()
            c, a, b = lv.root.args[0].args; a, b = deref(a), deref(b)
            return ite(c, s.read(LV(a.root, a.path + lv.path), st), s.read(LV(b.root, b.path + lv.path), st))
        m = st.store.get(lv.root)
        if not m: return s.defval(lv.root)(lv.path)
        return mini_read(m, s.defval(lv.root), lv.path)
    def write(s, lv, val, ln=0, note=True):
        if s.bounds is not None: s.check_bounds(lv, ln, 'written')
        if lv.root.op == 'deref' and lv.root.args[0].op == 'ite':
            c, a, b = lv.root.args[0].args; a, b = deref(a), deref(b); a = LV(a.root, a.path + lv.path); b = LV(b.root, b.path + lv.path)
            oa, ob = s.read(a), s.read(b)
            s.write(a, ite(c, val, oa), ln, note); s.write(b, ite(c, s.read(b) if a.root is b.root else ob, val), ln, note); return
        old = s.read(lv) if note and lv.root.op not in ('local', 'tmp') else None
        m = SMap.of(s.st.store.get(lv.root, {})); m.put(lv.path, val)
        if s.clock is not None and val.op in ('ptr', 'refw'): s.pborn[lv.root, lv.path] = s.clock
        s.st.wr()[lv.root] = m
        for w in s.wlogs: w.append((lv.root, lv.path))
        if note and lv.root.op not in ('local', 'tmp'):
            s.out.append(St(lv.root, lv.path, val, ln, s.curfn(), s.st.pc, old))
    deadline = None       # wall-clock time at which the analysis of this entry is given up
    bounds = None         # list of accesses to container elements at or beyond the (known) length; filled only when set to a list
    clock = None          # counts re-allocations of containers when set: references bound before the last one of the container they point into are stale
    grown = {}; pborn = {}; stales = []
    def realloc(s, lv):
        if s.clock is not None: s.clock += 1; s.grown[lv.root, lv.path] = s.clock
    def bind(s, lv): return LV(lv.root, lv.path, s.clock) if s.clock is not None else lv
    def fresh_at(s, lv, born, ln, what):
        if born is None or born == s.clock: return
        for i, x in enumerate(lv.path):
            if isinstance(x, T) and s.grown.get((lv.root, lv.path[:i]), 0) > born: s.stales.append((what, ln, s.curfn(), lv)); return
    def check_bounds(s, lv, ln, how):
        i = len(lv.path) - 1
        if i < 0 or not isinstance(lv.path[i], T): return
        k = const(lv.path[i])
        if k is None: return
        n = s.st.store.get(lv.root, {}).get(lv.path[:i] + ('#size',)); b = s.bounds
        n = const(n) if n is not None else None
        if n is not None and not 0 <= k < n: b.append((how, int(k), int(n), ln, s.curfn()))
    def havoc(s, lv, tag='hv'):
        v = T(tag, s.uid()); s.write(lv, v, note=False); return v
    def curfn(s): return s.frames[-1].fn if s.frames else None
    def rv(s, x):
        if isinstance(x, LV): return s.read(x)
        return x
    def lv(s, x):
        """materialise an rvalue"""
        if isinstance(x, LV): return x
        t = s.fresh('tmp'); s.write(t, x); return t
    def as_lv_ptr(s, x): return s.lv(x).ptr()
    # -------------------------------------------------- facts
    def decide(s, c):
        if c in (TRUE, FALSE): return c
        nc = notb(c)
        facts = s.st.pc
        if c in facts: return TRUE
        if nc in facts: return FALSE
        if c.op == 'not' and c.args[0].op in ('and', 'or'):
            r = s.decide(c.args[0]); return FALSE if r is TRUE else TRUE if r is FALSE else c
        if c.op == 'or' and all(s.decide(x) is FALSE for x in c.args): return FALSE
        if c.op == 'or' and any(s.decide(x) is TRUE for x in c.args): return TRUE
        if c.op == 'and' and any(s.decide(x) is FALSE for x in c.args): return FALSE
        if c.op == 'and' and all(s.decide(x) is TRUE for x in c.args): return TRUE
        if c.op == 'eq0':
            for f in facts:
                if f.op == 'eq0':
                    d = const(sub(f.args[0], c.args[0])); e = const(add(f.args[0], c.args[0]))
                    if (d is not None and d != 0) or (e is not None and e != 0): return FALSE
        if c.op == 'eq' and all(a.op == 'ptr' and not a.args[1] and a.args[0].op in ('this', 'arg', 'new', 'local') for a in c.args) and c.args[0].args[0] is not c.args[1].args[0]: return FALSE      # objects at entry do not alias
        if c.op == 'eq' and any(a.op in ('null', 'type') for a in c.args):
            x = [a for a in c.args if a.op not in ('type',)]
            for f in facts:
                if f.op == 'eq' and f is not c:
                    com = set(f.args) & set(c.args)
                    if com and all(next(iter(set(g.args) - com)).op == 'type' for g in (f, c) if len(set(g.args) - com) == 1) and len(set(f.args) - com) == 1: return FALSE
        if c.op == 'le0':
            for f in facts:
                if f.op == 'le0':
                    d = const(sub(f.args[0], c.args[0]))
                    if d is not None and d >= 0: return TRUE
                    d = const(add(f.args[0], c.args[0]))   # f: p<=0  c: -p+d<=0  i.e. p>=d
                    if d is not None and d > 0: return FALSE
                elif f.op == 'eq0':
                    for p in (f.args[0], neg(f.args[0])):
                        d = const(sub(c.args[0], p))
                        if d is not None: return tm.boolt(d <= 0)
        if c.op == 'eq0':
            for f in facts:
                if f.op == 'le0':
                    for p in (c.args[0], neg(c.args[0])):
                        d = const(sub(f.args[0], p))
                        if d is not None and d > 0: return FALSE
        return c
    def assume(s, c):
        if c is TRUE: return
        if c is FALSE: s.st.dead = True; return
        if c.op == 'and':   # the conjunction itself comes first: it is what the other branch negates
            if c not in s.st.pc: s.st.pc = s.st.pc + (c,)
            for x in c.args: s.assume(x)
            return
        if c not in s.st.pc: s.st.pc = s.st.pc + (c,)
    # -------------------------------------------------- merging
    def merge(s, cands):
        """cands: list of (State, value or None) alive; returns (State, value)"""
        cands = [c for c in cands if not c[0].dead]
        if not cands:
            d = State(); d.dead = True; return d, None
        return s._merge(cands)
    def _merge(s, cs):
        if len(cs) == 1: return cs[0]
        p = 0; mn = min(len(c[0].pc) for c in cs)
        while p < mn and all(c[0].pc[p] is cs[0][0].pc[p] for c in cs): p += 1
        if p >= mn:
            # one state carries no further fact: prefer gating on the other's
            longer = [c for c in cs if len(c[0].pc) > p]; short = [c for c in cs if len(c[0].pc) == p]
            if not longer:
                a = short[0]
                for b in short[1:]: a = s._merge2(a, b, T('nondet', s.uid()), p)
                return a
            f = longer[0][0].pc[p]
            A = [c for c in longer if c[0].pc[p] is f]; B = [c for c in cs if not (len(c[0].pc) > p and c[0].pc[p] is f)]
            return s._merge2(s._merge(A), s._merge(B), s.gate(A, B, f, p), p)
        f = cs[0][0].pc[p]
        A = [c for c in cs if c[0].pc[p] is f]; B = [c for c in cs if c[0].pc[p] is not f]
        return s._merge2(s._merge(A), s._merge(B), s.gate(A, B, f, p), p)
    def gate(s, A, B, f, p):
        """a condition that holds in all of A and in none of B (f holds in A)"""
        n = notb(f)
        if all(n in b[0].pc[p:] for b in B): return f
        for x in (y for y in A[0][0].pc[p + 1:]):
            m = notb(x)
            if all(x in a[0].pc[p:] for a in A) and all(m in b[0].pc[p:] for b in B): return x
        g = orb(*[andb(*a[0].pc[p:]) for a in A]); h = notb(orb(*[andb(*b[0].pc[p:]) for b in B]))
        if any(len(b[0].pc) == p for b in B): return g if all(len(a[0].pc) > p for a in A) else T('nondet', s.uid())
        if any(len(a[0].pc) == p for a in A): return h
        return g if len(list(tm.atoms(g))) <= len(list(tm.atoms(h))) else h
    def _merge2(s, a, b, cond, p):
        A, va = a; B, vb = b
        R = State(); R.pc = A.pc[:p]
        ra, rb = A.pc[p:], B.pc[p:]
        R.pc = R.pc + tuple(x for x in ra if x in rb)
        ka, kb = [x for x in ra if x not in rb], [x for x in rb if x not in ra]
        extra = orb(andb(*ka), andb(*kb)) if len(ka) + len(kb) < 12 else TRUE
        if extra is not TRUE and extra is not FALSE and extra.op != 'and' and extra not in R.pc: R.pc = R.pc + (extra,)
        for root in list(A.store) + [r for r in B.store if r not in A.store]:
            ma, mb = A.store.get(root, {}), B.store.get(root, {})
            if ma is mb or ma == mb: R.store[root] = ma; continue
            if root.op in ('local', 'tmp') and (root not in A.store or root not in B.store): R.store[root] = ma or mb; continue
            R.store[root] = s._merge_map(root, ma, mb, cond)
        if va is None and vb is None: v = None
        elif va is None or vb is None: v = va if va is not None else vb
        elif isinstance(va, LV) and isinstance(vb, LV):
            v = va if va.key() == vb.key() else deref(ite(cond, va.ptr(), vb.ptr()))
        else:
            va = s.read(va, A) if isinstance(va, LV) else va; vb = s.read(vb, B) if isinstance(vb, LV) else vb
            v = ite(cond, va, vb)
        return R, v
    def _merge_map(s, root, ma, mb, cond):
        base = s.defval(root); m = {}
        sym = any(isinstance(x, T) and const(x) is None for q in list(ma) + list(mb) for x in q)
        if not sym:
            for q in sorted(set(ma) | set(mb), key=lambda q: (len(q), tm.pathstr(q))):
                m[q] = ite(cond, raw_read(ma, base, q), raw_read(mb, base, q))
            return m
        # common ordered prefix of writes, then each side's own writes gated
        la, lb = list(ma.items()), list(mb.items()); i = 0
        while i < len(la) and i < len(lb) and la[i][0] == lb[i][0] and la[i][1] is lb[i][1]: m[la[i][0]] = la[i][1]; i += 1
        for q, v in la[i:]:
            o = mini_read(mb, base, q); m.pop(q, None); m[q] = ite(cond, v, o)
        for q, v in lb[i:]:
            if q in ma and q in m: continue
            o = mini_read(ma, base, q); m.pop(q, None); m[q] = ite(cond, o, v)
        return m
    # -------------------------------------------------- statements
    def tick(s):
        s.steps -= 1
        if s.steps < 0 or (s.deadline is not None and not s.steps % 64 and time.time() > s.deadline): raise Budget()
    def run_if(s, c, fa, fb, ln):
        c = s.decide(c)
        if c is TRUE: return fa()
        if c is FALSE: return fb() if fb else None
        st0 = s.st; saved = s.out
        s.st = st0.copy(); s.assume(c); s.out = na = []; va = fa() if not s.st.dead else None; A = s.st
        s.st = st0.copy(); s.assume(notb(c)); s.out = nb = []; vb = fb() if fb and not s.st.dead else None; B = s.st
        s.out = saved
        if na or nb: s.out.append(If(c, na, nb, ln, s.curfn()))
        # materialise lvalue results in their own state
        cands = []
        for X, v in ((A, va), (B, vb)):
            if not X.dead: cands.append((X, v))
        s.st, v = s.merge(cands)
        return v
    def exec(s, n):
        if n is None or s.st.dead: return
        s.tick()
        k = n['k']
        getattr(s, 'x_' + k, s.x_unknown)(n)
    def x_unknown(s, n): s.unknown.append(('stmt', n.get('cls', n['k']), n.get('ln'))); 
    def x_null(s, n): pass
    def x_block(s, n):
        s.scopes.append([])
        for x in n['s']:
            if s.st.dead: break
            s.exec(x)
        sc = s.scopes.pop()
        if sc and not s.st.dead: s.leave([sc])
    def leave(s, scopes, keep=None):
        """destructors of the local variables of these scopes"""
        for sc in reversed(scopes):
            for lv, t, ln in reversed(sc):
                if lv.root != keep and not s.st.dead: s.destroy(lv, t, ln)
    def destructible(s, t):
        t = unq(t)
        if t in s.dcache: return s.dcache[t]
        s.dcache[t] = False; rec = s.P.rect.get(t); r = False
        if rec is not None:
            r = any(f['kind'] == 'dtor' and f.get('clst') is not None and s.P.ty(f['clst']) == t and f.get('body') is not None and not f.get('implicit') for f in s.P.d['funcs'])
            r = r or any('*' not in s.P.ty(fd['t']) and '&' not in s.P.ty(fd['t']) and s.destructible(s.P.ty(fd['t'])) for fd in rec['fields'])
        s.dcache[t] = r; return r
    def x_expr(s, n): s.eval(n['e'])
    def x_decl(s, n):
        for v in n['v']: s.declare(v)
    def declare(s, v):
        fr = s.frames[-1]; t = s.P.ty(v['t'])
        if v.get('static'):
            lv = LV(T('glob', 'static:' + v['n'])); fr.vars[v['id']] = lv
            return
        if t.endswith('&'):
            x = s.eval(v['init']); fr.vars[v['id']] = s.bind(s.lv(x)); s.bindings(v, fr.vars[v['id']]); return
        lv = LV(T('local', v['n'], s.uid())); fr.vars[v['id']] = lv; s.ltypes[lv.root] = t
        if v.get('init') is not None:
            val = s.construct_into(lv, v['init'], t); s.bindings(v, lv)
            if s.fs and s.scopes and s.destructible(t): s.scopes[-1].append((lv, t, v['ln']))
        else:
            s.write(lv, T('undef', lv.root), v['ln'])
    def bindings(s, v, lv):
        """structured bindings of a pair (tuple-like: the bindings refer to variables of their own)"""
        b = v.get('bind') or []
        if len(b) == 2 and all((x.get('e') or {}).get('k') == 'ref' for x in b):
            for x, w in zip(b, ('first', 'second')):
                l = s.pairmem(lv, w); s.frames[-1].vars[x['id']] = l; s.frames[-1].vars[x['e']['id']] = l
    def construct_into(s, lv, e, t):
        """evaluate initialiser e into lv (constructors run in place)"""
        if e is None: s.write(lv, T('undef', lv.root)); return
        if e['k'] == 'ctor' and not e.get('elide'):
            s.do_ctor(e, lv); return
        x = s.eval(e)
        s.write(lv, s.rv(x), e.get('ln', 0))
    def x_if(s, n):
        if n.get('init'): s.exec(n['init'])
        if n.get('cv'): s.exec(n['cv'])
        c = s.cond(n['c'])
        s.run_if(c, lambda: s.exec(n['a']), lambda: s.exec(n['b']), n['ln'])
    def x_return(s, n):
        fr = s.frames[-1]; v = None
        while fr.label is None: fr = fr.parent
        if n.get('e') is not None:
            v = s.eval(n['e'])
            if s.st.dead: return
            keep = v.root if isinstance(v, LV) and not v.path else None
            if not fr.retref: v = s.rv(v)
            elif isinstance(v, T): v = s.lv(v)
        else: keep = None
        if s.fs and any(s.scopes[fr.scope0:]):
            s.leave(s.scopes[fr.scope0:], keep)
            if s.st.dead: return
        fr.rets.append((s.st, v))
        s.out.append(Exit('return', fr.label, v.ptr() if isinstance(v, LV) else v, n['ln'], s.curfn(), s.st.pc))
        s.st = s.st.left()
    def x_break(s, n):
        b = s.brk[-1]; b['breaks'].append((s.st, None)); s.out.append(Exit('break', b['label'], None, n['ln'], s.curfn(), s.st.pc)); s.st = s.st.left()
    def x_continue(s, n):
        b = [x for x in s.brk if x['loop']][-1]; b['conts'].append((s.st, None)); s.out.append(Exit('continue', b['label'], None, n['ln'], s.curfn(), s.st.pc)); s.st = s.st.left()
    def x_case(s, n): s.exec(n['s'])
    def x_default(s, n): s.exec(n['s'])
    def x_switch(s, n):
        if n.get('init'): s.exec(n['init'])
        c = s.rv(s.eval(n['c']))
        body = n['body']['s'] if n['body']['k'] == 'block' else [n['body']]
        segs = []   # (labels, stmts)
        for x in body:
            labs = []
            y = x
            while y is not None and y['k'] in ('case', 'default'):
                labs.append(None if y['k'] == 'default' else y['e']); y = y['s']
            if labs: segs.append([labs, []])
            if segs and y is not None: segs[-1][1].append(y)
        lab = s.uid(); blk = Block(lab); s.out.append(blk); saved = s.out; s.out = blk.body
        ctx = {'label': lab, 'breaks': [], 'conts': [], 'loop': False}; s.brk.append(ctx)
        conds = []
        for labs, _ in segs: conds.append([None if l is None else eqt(c, s.rv(s.eval(l))) for l in labs])
        allc = [x for cs in conds for x in cs if x is not None]
        def go(i):
            if i == len(segs): return
            if None in conds[i]: cc = orb(*([x for x in conds[i] if x is not None] + [andb(*[notb(x) for x in allc])]))
            else: cc = orb(*conds[i])
            def taken():
                for j in range(i, len(segs)):
                    for y in segs[j][1]:
                        if s.st.dead: return
                        s.exec(y)
            s.run_if(cc, taken, lambda: go(i + 1), n['ln'])
        go(0)
        s.brk.pop(); s.out = saved
        s.st, _ = s.merge(([(s.st, None)] if not s.st.dead else []) + ctx['breaks'])
    def x_try(s, n):
        st0 = s.st.copy(); saved = s.out; node = Block(s.uid()); node.kind = 'block'; node.is_try = True
        nt = len(s.thrown)
        s.out = node.body; s.exec(n['body']); A = s.st
        if s.fs:        # exceptions are those of the file system model
            if A.dead and len(s.thrown) == nt + 1 and n['h']:
                s.st = s.thrown.pop(); s.st.dead = False; s.exec(n['h'][0])
            s.out = saved; s.out.append(node); node.handlers = []; return
        hs = []
        for h in n['h']:
            s.st = st0.copy(); s.st.pc = s.st.pc + (T('exc', s.uid()),); s.out = hb = []; s.exec(h); hs.append((s.st, hb))
        s.out = saved; node.handlers = [hb for _, hb in hs]; s.out.append(node)
        if not A.dead: A.pc = A.pc + (T('noexc', s.uid()),)
        s.st, _ = s.merge([(A, None)] + [(h, None) for h, _ in hs])
    # -------------------------------------------------- loops
    def x_for(s, n):
        s.exec(n['init']) if n.get('init') else None
        s.loop(lambda: s.cond(n['c']) if n.get('c') else TRUE, lambda: s.exec(n['body']), (lambda: s.eval(n['inc'])) if n.get('inc') else (lambda: None), n['ln'])
    def x_while(s, n):
        def c():
            if n.get('cv'): s.exec(n['cv'])
            return s.cond(n['c'])
        s.loop(c, lambda: s.exec(n['body']), lambda: None, n['ln'])
    def x_do(s, n):
        s.loop(lambda: s.cond(n['c']), lambda: s.exec(n['body']), lambda: None, n['ln'], post=True)
    def x_rangefor(s, n):
        r = s.lv(s.eval(n['range'])); rt = s.P.ty(n['range']['t'])
        b, cnt = s.range_of(r, rt)
        vid = n['v']['id']; vt = s.P.ty(n['v']['t']); fr = s.frames[-1]
        i = LV(T('local', 'range_i', s.uid())); s.write(i, ZERO)
        def body():
            el = deref(padd(b, s.read(i)))
            if vt.endswith('&') and 'reference_wrapper' in rt and 'reference_wrapper' not in vt:
                w = s.read(el)
                if w.op == 'refw': el = deref(w.args[0])
            if vt.endswith('&'): fr.vars[vid] = s.bind(s.wrapref(el, rt))
            else:
                l = LV(T('local', n['v']['n'], s.uid())); fr.vars[vid] = l; s.write(l, s.read(el))
            s.bindings(n['v'], fr.vars[vid])
            s.exec(n['body'])
        def c(): return tm.lt0(sub(s.read(i), cnt), True)
        def inc(): s.write(i, add(s.read(i), ONE))
        s.loop(c, body, inc, n['ln'])
    def once(s, cond, body, inc, post, ctx):
        """one symbolic iteration; leaves s.st at the next loop head; returns cond"""
        c = None
        if not post:
            c = s.decide(cond())
            ctx['cond'] = c; ctx['condpc'] = s.st.copy()
            s.assume(c)
        if not s.st.dead: body()
        ends = ([(s.st, None)] if not s.st.dead else []) + ctx['conts']
        s.st, _ = s.merge(ends)
        if not s.st.dead:
            inc()
            if post:
                c = s.decide(cond()); ctx['cond'] = c
        return c
    def loop(s, cond, body, inc, ln, post=False):
        if s.st.dead: return
        st0, out0, n0 = s.st.copy(), s.out, s.ctr
        # --- full unrolling when every condition is decided
        label = s.uid(); blk = Block(label); s.out = blk.body; brks = []; ok = False; log0 = [len(w) for w in s.wlogs]
        steps0 = s.steps
        if not post:
            for it in range(s.unroll):
                nb = len(s.out)
                c = s.decide(cond())
                if c is FALSE: ok = True; break
                if c is not TRUE: break
                if it >= 12 and not brks and False: break
                ctx = {'label': label, 'breaks': brks, 'conts': [], 'loop': True}; s.brk.append(ctx)
                cl = s.uid(); ib = Block(cl); ctx['clabel'] = cl; saved = s.out; s.out = ib.body
                body()
                ends = ([(s.st, None)] if not s.st.dead else []) + ctx['conts']
                s.st, _ = s.merge(ends); s.brk.pop(); s.out = saved
                for x in walk_exits(ib.body): 
                    if x.what == 'continue' and x.label == label: x.label = cl
                if ib.body: s.out.append(ib)
                if s.st.dead: ok = bool(brks) or True; break
                inc()
                if s.st.dead: ok = True; break
                if s.steps < steps0 - (2000000 if s.fs else 60000): break
        if ok:
            s.out = out0
            if blk.body: s.out.append(blk)
            s.st, _ = s.merge(([(s.st, None)] if not s.st.dead else []) + brks)
            return
        for w, l in zip(s.wlogs, log0): del w[l:]
        s.st, s.out = st0, out0
        s.generic_loop(cond, body, inc, ln, post)
    def generic_loop(s, cond, body, inc, ln, post):
        st0 = s.st.copy(); out0 = s.out; depth = s.loopdepth; s.loopdepth += 1
        K = T('K', depth)
        preroots = set(st0.store)
        def existed(r): return r in preroots or r.op not in ('local', 'tmp', 'new')
        mods = []; ind = {}
        wdead = False
        def region(root, path):
            # cut at the first index element that is not constant
            for i, x in enumerate(path):
                if isinstance(x, T) and const(x) is None and (K in tm.atoms(x) or any(a.op == 'mu' and a.args[0] == depth for a in tm.atoms(x)) or True):
                    return (root, path[:i])
            return (root, path)
        def setup():
            s.st = st0.copy()
            for key in mods:
                r, p = key; lv = LV(r, p)
                if key in ind: v = add(ind[key][0], mul(ind[key][1], K)) if not ind[key][2] else padd(ind[key][0], mul(ind[key][1], K))
                else: v = T('mu', depth, T('lvn', r if r.op not in ('local', 'tmp') else T('nm', r.args[0] if isinstance(r.args[0], str) else 'tmp', mods.index(key)), p))
                m = dict(s.st.store.get(r, {}))
                for q in [q for q in m if len(q) >= len(p) and q[:len(p)] == p]: del m[q]
                m[p] = v; s.st.wr()[r] = m
            s.st.pc = tuple(f for f in s.st.pc)
        res = None
        for rnd in range(8):
            setup(); wl = []; s.wlogs.append(wl); s.out = []; saveu = len(s.unknown); sctr = s.ctr
            ctx = {'label': -1, 'breaks': [], 'conts': [], 'loop': True}; s.brk.append(ctx)
            s.once(cond, body, inc, post, ctx)
            s.wlogs.pop(); s.brk.pop()
            del s.unknown[saveu:]
            new = False
            for r, p in wl:
                if not existed(r): continue
                key = region(r, p)
                if any(k[0] is key[0] and key[1][:len(k[1])] == k[1] for k in mods): continue
                # subsumes finer keys
                for k in [k for k in mods if k[0] is key[0] and k[1][:len(key[1])] == key[1]]: mods.remove(k); ind.pop(k, None)
                mods.append(key); new = True
            if new: continue
            # induction variables
            newi = False
            if not s.st.dead:
                for key in mods:
                    if key in ind: continue
                    lv = LV(*key); mu = T('mu', depth, T('lvn', key[0] if key[0].op not in ('local', 'tmp') else T('nm', key[0].args[0] if isinstance(key[0].args[0], str) else 'tmp', mods.index(key)), key[1]))
                    nv = s.read(lv); iv = s.read(lv, st0); pt = False
                    if nv.op == 'padd' and nv.args[0] is mu: step = nv.args[1]; pt = True
                    elif nv is mu: step = ZERO
                    elif nv.op in ('obj', 'ite'): continue
                    elif iv.op in ('ptr', 'padd') : continue
                    else: step = sub(nv, mu) if tm.is_num(nv) else None
                    if step is None: continue
                    at = tm.atoms(step)
                    if mu in at or any(a.op in ('mu', 'K') and a.args[0] == depth for a in at) or not s.invariant(step, st0, mods): continue
                    if step is ZERO and nv is mu: continue
                    if not pt and not tm.is_num(iv): continue
                    ind[key] = (iv, step, pt); newi = True
            if not newi: break
        # final pass
        setup()
        node = Loop(s.uid()); node.depth = depth; node.ln = ln; node.fn = s.curfn(); node.pc = s.st.pc; node.K = K
        s.out = node.body; wl = []; s.wlogs.append(wl)
        ctx = {'label': node.label, 'breaks': [], 'conts': [], 'loop': True}; s.brk.append(ctx)
        c = s.once(cond, body, inc, post, ctx); s.wlogs.pop(); s.brk.pop()
        node.cond = c; end = s.st
        node.breaks = bool(ctx['breaks'])
        node.post = post
        node.rets = any(x.what == 'return' for x in walk_exits(node.body))
        node.trips = s.trips(c, K, post) if c is not None else None
        mun = lambda key: T('mu', depth, T('lvn', key[0] if key[0].op not in ('local', 'tmp') else T('nm', key[0].args[0] if isinstance(key[0].args[0], str) else 'tmp', mods.index(key)), key[1]))
        nxt = {key: (s.read(LV(*key), end) if not end.dead else T('undef', 'never')) for key in mods}
        node.carried = {tm.show(k[0]) + tm.pathstr(k[1]): (s.read(LV(*k), st0), nxt[k]) for k in mods}
        node.carried_keys = {k: (s.read(LV(*k), st0), nxt[k], mun(k)) for k in mods}
        node.ind = dict(ind)
        out0.append(node); s.out = out0; s.loopdepth -= 1
        # after-state
        after = st0.copy()
        exact = not node.breaks and node.trips is not None and not end.dead
        folds = {}
        for key in mods:
            init = s.read(LV(*key), st0)
            if key in ind:
                if exact:
                    a, stp, pt = ind[key]; v = padd(a, mul(stp, node.trips)) if pt else add(a, mul(stp, node.trips))
                else: v = T('lexit', node.label, T('lvn', key[0], key[1]))
            elif exact and nxt[key] is mun(key): v = init
            else:
                v = s.fold(key, init, nxt[key], mun(key), K, node, exact, depth, mods, wl)
            m = dict(after.store.get(key[0], {}))
            for q in [q for q in m if len(q) >= len(key[1]) and q[:len(key[1])] == key[1]]: del m[q]
            m[key[1]] = v; after.wr()[key[0]] = m
            for w in s.wlogs: w.append(key)
        if not node.breaks and c is not None and c.op not in ('true', 'false') and not any(a.op in ('K', 'mu') and a.args[0] == depth for a in tm.atoms(c)): after.pc = after.pc + (notb(c),)
        if c is TRUE and not node.breaks: after.dead = True
        if not post and c is FALSE: pass
        s.st = after
        if end.dead and not ctx['breaks'] and c is TRUE: s.st.dead = True
    def invariant(s, t, st0, mods):
        for a in tm.atoms(t):
            if a.op == 'ld' and any(k[0] is a.args[0] and a.args[1][:len(k[1])] == k[1] for k in mods): return False
        return True
    def trips(s, c, K, post):
        if c is None: return None
        if c.op == 'and': 
            return None
        if c.op == 'le0' or c.op in ('lt0', 'nlt0'):
            p = c.args[0] if c.op != 'nlt0' else neg(c.args[0])
            d = tm.pd(p); kc = d.get(((K, 1),)); rest = tm.norm(tm._mk({m: x for m, x in d.items() if m != ((K, 1),)}))
            if kc is None or K in tm.atoms(rest): return None
            if c.op == 'le0':
                if kc == 1: r = add(neg(rest), ONE)
                elif kc > 0: r = T('ceildiv', add(neg(rest), ONE), num(kc))
                else: return None
            else:
                if kc > 0: r = T('ceilr', mul(neg(rest), num(1 / kc)))
                else: return None
            return add(r, ONE) if post else r
        if c.op == 'not' and c.args[0].op == 'eq0':
            p = c.args[0].args[0]; d = tm.pd(p); kc = d.get(((K, 1),)); rest = tm.norm(tm._mk({m: x for m, x in d.items() if m != ((K, 1),)}))
            if kc and K not in tm.atoms(rest) and all((x / kc).denominator == 1 for x in tm.pd(rest).values()):
                r = mul(rest, num(-1 / kc)); return add(r, ONE) if post else r
        return None
    def fold(s, key, init, nxt, mu, K, node, exact, depth, mods, wl):
        bad = lambda t: any(a.op == 'mu' and a.args[0] == depth for a in tm.atoms(t))
        if exact and tm.is_num(nxt):
            if mu in tm.atoms(nxt):
                st = sub(nxt, mu)
                if not bad(st): return add(init, T('Sum', K, node.trips, st))
                if nxt.op == 'poly':
                    q = div(nxt, mu)
                    if not bad(q): return mul(init, T('Prod', K, node.trips, q))
        # single unconditional array write a[i0+K] := v(K)
        if exact:
            w = [(r, p) for r, p in wl if r is key[0] and p[:len(key[1])] == key[1]]
            sts = [x for x in node.body if x.kind == 'st' and x.root is key[0] and x.path[:len(key[1])] == key[1]]
            ws = list(dict.fromkeys(w))
            if nxt.op == 'obj' and nxt.args[0] is mu and len(nxt.args[1]) == 1:
                p, v = nxt.args[1][0]
                if len(p) == 1 and isinstance(p[0], T) and K in tm.atoms(p[0]) and not bad(p[0]) and not bad(v) and const(tm.sub(tm.subst(p[0], {K: add(K, ONE)}), p[0])) == 1:
                    return T('maparr', K, p[0], v, init, tm.subst(p[0], {K: ZERO}), node.trips)
                if const(p[0]) is None if len(p) and isinstance(p[0], T) else False: pass
        if exact and nxt.op != 'undef' and not (K in tm.atoms(nxt)) and not bad(nxt) and False: return nxt
        return T('fold', node.label if not exact else ZERO, node.trips if node.trips is not None else T('none'), init, nxt, K, mu)
    # -------------------------------------------------- conditions
    def cond(s, e):
        v = s.eval(e)
        if s.st.dead: return FALSE
        return s.tobool(s.rv(v))
    def tobool(s, v):
        if tm.isbool(v) or v.op == 'nlt0': return v
        c = const(v)
        if c is not None: return tm.boolt(c != 0)
        if v.op in ('ptr',): return TRUE
        if v.op == 'null': return FALSE
        if v.op == 'ite': return ite(v.args[0], s.tobool(v.args[1]), s.tobool(v.args[2]))
        if v.op in ('ld', 'call', 'app', 'proj', 'mu', 'ret', 'contains', 'holds'): return T('truth', v) if v.op not in () else v
        return notb(eqt(v, ZERO)) if tm.is_num(v) else T('truth', v)
    # -------------------------------------------------- expressions
    def eval(s, e):
        if e is None: return T('undef', 'none')
        if s.st.dead: return T('undef', 'dead')
        s.tick()
        return getattr(s, 'e_' + e['k'], s.e_unknown)(e)
    def e_unknown(s, e):
        s.unknown.append(('expr', e.get('cls', e['k']), e.get('ln'))); return T('unk', s.uid())
    e_recovery = e_unknown
    def e_int(s, e): return num(int(e['v']))
    def e_float(s, e):
        return num(Fraction(e['v'].replace('E', 'e').rstrip('.') if 'E' in e['v'] or 'e' in e['v'] else e['v']) if 'inf' not in e['v'].lower() and 'nan' not in e['v'].lower() else 0)
    def e_bool(s, e): return tm.boolt(e['v'])
    def e_null(s, e): return T('null')
    def e_zero(s, e): return ZERO
    def e_str(s, e): return T('str', e['v'])
    def e_fref(s, e): return T('fref', e['f'], strip_ta(e['fn']))
    def e_this(s, e):
        return s.this().ptr()
    def this(s):
        f = s.frames[-1]
        while f is not None:
            if f.this is not None:
                if s.clock is not None and f.this.born is not None: s.fresh_at(f.this, f.this.born, 0, 'this')
                return f.this
            f = f.parent
        return LV(T('this'))
    def e_ref(s, e):
        if 'cv' in e: return num(int(e['cv']))
        lv = s.frames[-1].lookup(e['id'])
        if lv is not None:
            if s.clock is not None and lv.born is not None: s.fresh_at(lv, lv.born, e.get('ln', 0), e.get('n', '?'))
            return lv
        if 'bind' in e: return s.eval(e['bind'])
        g = s.P.glob.get(e['id'])
        if g is not None and g.get('init') is not None and (s.P.ty(g['t']).startswith('const') or g.get('constexpr')):
            if e['id'] not in s.globvals:
                s.globvals[e['id']] = None
                lv = LV(T('glob', g['n'])); out, s.out = s.out, []
                s.globvals[e['id']] = lv
                x = s.rv(s.eval(g['init'])); s.out = out; s.globvals[e['id']] = x
            if s.globvals[e['id']] is not None: return s.globvals[e['id']]
        if e.get('glob', '').startswith('std::placeholders::_'): return T('ph', int(e['glob'].split('_')[-1]))
        return LV(T('glob', e.get('glob', e['n'])))
    def e_mem(s, e):
        b = s.eval(e['b'])
        if e.get('arrow'):
            p = s.rv(b); s.use(p, e['ln']); lv = deref(p)
            if s.clock is not None and isinstance(b, LV): s.fresh_at(lv, s.pborn.get(b.key()), e['ln'], e['b'].get('n', 'pointer'))
        else: lv = s.lv(b)
        if lv.root.op == 'mapentry' and e['n'] in ('first', 'second'): return s.pairmem(lv, e['n'])
        return lv.sub(e['n'])
    def use(s, p, ln):
        if s.trackuse and p.op != 'ptr': s.out.append(Use(p, ln, s.curfn(), s.st.pc))
    def e_sub(s, e):
        b = s.eval(e['b']); i = s.rv(s.eval(e['i'])); bt = s.P.ty(e['b']['t'])
        if '[' in bt and isinstance(b, LV) and not bt.rstrip().endswith('*'): return b.sub(i)
        if isinstance(b, T) and b.op == 'str': return T('chr', b, i)
        p = s.rv(b) if not (isinstance(b, LV) and re.search(r'\[\d*\]$', bt)) else b.sub(ZERO).ptr()
        return deref(padd(p, i))
    def e_cast(s, e):
        x = s.eval(e['e']); ck = e['ck']; t = s.P.ty(e['t'])
        if ck in ('NoOp', 'LValueToRValue', 'BitCast', 'DerivedToBase', 'BaseToDerived', 'UncheckedDerivedToBase', 'LValueBitCast', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'Dependent', 'ToVoid'):
            if e.get('lv') and e.get('re'):
                f = unq(s.P.ty(e['e']['t'])); tt = unq(t)
                if f != tt: return s.bits(s.rv(x), f, tt)
                return x
            if ck == 'ArrayToPointerDecay' and isinstance(x, LV): return x.sub(ZERO).ptr()
            if ck == 'ToVoid': s.rv(x) if isinstance(x, LV) else None
            return x
        v = s.rv(x)
        if ck == 'FloatingToIntegral':
            c = const(v)
            if c is not None: return num(int(c))
            if v.op in ('ceil', 'floor', 'ipart', 'trunc'): return v
            return T('trunc', v)
        if ck == 'IntegralToFloating': return v
        if ck == 'FloatingCast': return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return s.tobool(v)
        if ck == 'IntegralCast':
            c = const(v); f = unq(s.P.ty(e['e']['t'])); tt = unq(t)
            if tm.isbool(v): return v
            if c is not None:
                if tt == 'unsigned long' and c < 0: return v if c > -10 else num(c + 2**64)
                if s.fs and tt in ('int', 'long', 'unsigned int') and tt != f and c.denominator == 1 and not -2 ** 31 <= c < 2 ** 31:
                    k = 8 * INTW[tt]; x = int(c) % 2 ** k; return num(x - 2 ** k if tt in ('int', 'long') and x >= 2 ** (k - 1) else x)
                return v
            wf, wt = INTW.get(f, 8), INTW.get(tt, 8)
            if wt < wf: return T('narrow', num(wt), v)
            return v
        if ck == 'NullToPointer': return T('null')
        if ck == 'PointerToIntegral' or ck == 'IntegralToPointer': return T('ptrint', v)
        return v
    def bits(s, v, f, t):
        import struct
        if f in FLOATY and t not in FLOATY:
            c = const(v) if v.op == 'poly' else None; k = INTW.get(t)
            if c is not None and k in (4, 8):
                x = struct.pack('<f' if k == 4 else '<d', float(c))
                if Fraction(struct.unpack('<f' if k == 4 else '<d', x)[0]) == c: return num(int.from_bytes(x, 'little'))
            return v.args[0] if v.op == 'unbits' else T('bits', v)
        if t in FLOATY and f not in FLOATY:
            c = const(v) if v.op == 'poly' else None; k = INTW.get(f)
            if c is not None and c.denominator == 1 and k in (4, 8) and 0 <= c < 2 ** (8 * k):
                x = struct.unpack('<f' if k == 4 else '<d', int(c).to_bytes(k, 'little'))[0]
                if x == x and abs(x) != float('inf'): return num(Fraction(x))
            return v.args[0] if v.op == 'bits' else T('unbits', v)
        return v
    def e_un(s, e):
        op = e['op']
        if op == '&':
            x = s.eval(e['e'])
            if isinstance(x, T) and x.op == 'fref': return x
            return s.lv(x).ptr()
        if op == '*':
            x = s.eval(e['e'])
            if isinstance(x, LV) and '[' in s.P.ty(e['e']['t']) : return x.sub(ZERO)
            p = s.rv(x)
            if p.op == 'fref': return p
            s.use(p, e['ln'])
            if s.clock is not None and isinstance(x, LV): s.fresh_at(deref(p), s.pborn.get(x.key()), e['ln'], e['e'].get('n', 'pointer'))
            return deref(p)
        x = s.eval(e['e'])
        if op in ('++', '--'):
            lv = s.lv(x); o = s.read(lv); d = ONE if op == '++' else num(-1)
            t = s.P.ty(e['t'])
            n = padd(o, d) if o.op in ('ptr', 'padd') or t.rstrip('& ').endswith('*') else add(o, d)
            s.write(lv, n, e['ln']); return o if e.get('post') else lv
        v = s.rv(x)
        if op == '-': return neg(v)
        if op == '+': return v
        if op == '!': return notb(s.tobool(v))
        if op == '~': return T('bnot', v)
        return T('un' + op, v)
    def realty(s, e): return unq(s.P.ty(e['t'])) in FLOATY
    def wrap(s, v, e, ty=None):
        """unsigned arithmetic on known values is modulo the word size"""
        if not s.fs or v.op != 'poly': return v
        c = const(v)
        if c is None or 0 <= c < 2 ** 32: return v
        ty = unq(s.P.ty(e['t'])) if e is not None and 't' in e else ty
        if ty in ('unsigned long', 'unsigned long long', 'unsigned int') and c.denominator == 1: return num(int(c) % 2 ** (8 * INTW[ty]))
        return v
    def binop(s, op, a, b, real, tl='', tr=''):
        if op in ('+', '-'):
            if a.op in ('ptr', 'padd') or tl.rstrip().endswith('*'):
                if op == '-' and (b.op in ('ptr', 'padd') or tr.rstrip().endswith('*')): return pdiff(a, b)
                return padd(a, b if op == '+' else neg(b))
            if b.op in ('ptr', 'padd') or tr.rstrip().endswith('*'): return padd(b, a)
            return add(a, b) if op == '+' else sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if real: return div(a, b)
            ca, cb = const(a), const(b)
            if ca is not None and cb: return num(int(ca / cb))
            if cb == 1: return a
            return T('idiv', a, b)
        if op == '%':
            ca, cb = const(a), const(b)
            if ca is not None and cb: return num(int(ca) % int(cb))
            return T('mod', a, b)
        if op in ('==', '!=', '<', '>', '<=', '>='): return s.cmp(op, a, b, real)
        if op in ('&', '|', '^', '<<', '>>'):
            ca, cb = const(a), const(b)
            if ca is not None and cb is not None:
                x, y = int(ca), int(cb)
                if op in ('<<', '>>') and not 0 <= y < 64: return T('undef', 'shift')
                return num(x & y if op == '&' else x | y if op == '|' else x ^ y if op == '^' else x << y if op == '<<' else x >> y)
            if op == '|':
                # recognise the 64-bit byte swap
                for p, q in ((a, b), (b, a)):
                    if p.op == 'b<<' and const(p.args[1]) == 32 and p.args[0].op == 'bswap32' and q.op == 'bswap32':
                        lo, hi = p.args[0].args[0], q.args[0]
                        lo = lo.args[1] if lo.op == 'narrow' and const(lo.args[0]) == 4 else lo
                        hi = hi.args[1] if hi.op == 'narrow' and const(hi.args[0]) == 4 else hi
                        if hi.op == 'b>>' and const(hi.args[1]) == 32:
                            x = hi.args[0]
                            if lo is x or (lo.op == 'b&' and x in lo.args and num(0xFFFFFFFF) in lo.args):
                                return x.args[0] if x.op == 'bswap64' else T('bswap64', x)
                if ca == 0: return b
                if cb == 0: return a
            if op in ('&', '|', '^'): a, b = sorted((a, b))
            return tm.rebuild('b' + op, (a, b))
        return T('op' + op, a, b)
    def cmp(s, op, a, b, real):
        for x, y in ((a, b), (b, a)):
            if x.op == 'mapit' and y.op in ('ptr', 'padd'):      # find(key) compared with end()
                z = y.args[0] if y.op == 'ptr' else y.args[0].args[0] if y.args[0].op == 'ptr' else None
                if z is not None and z.op == 'mapelems' and z.args == x.args[:2] and op in ('==', '!='):
                    h = s.has(LV(x.args[0], x.args[1]), x.args[2]); return notb(h) if op == '==' else h
            if tm.isbool(x) and const(y) is not None and y.op == 'poly':
                o = op if x is a else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op); t, f = (s.cmp(o, num(v), y, real) for v in (1, 0))
                return x if t is TRUE and f is FALSE else notb(x) if t is FALSE and f is TRUE else t
        if op == '==': return eqt(a, b)
        if op == '!=': return notb(eqt(a, b))
        if (a.op in ('ptr', 'padd') or b.op in ('ptr', 'padd')):
            d = pdiff(a, b)
            if d.op == 'pdiff': return T('pcmp' + op, a, b)
            a, b, real = d, ZERO, False
        if tm.isbool(a) or tm.isbool(b): return T('bcmp' + op, a, b)
        i = not real
        if op == '<': return tm.lt0(sub(a, b), i)
        if op == '>': return tm.lt0(sub(b, a), i)
        if op == '<=': return tm.le0(sub(a, b), i)
        return tm.le0(sub(b, a), i)
    def e_bin(s, e):
        op = e['op']
        if op == ',': s.eval(e['l']); return s.eval(e['r'])
        if op in ('&&', '||'):
            a = s.cond(e['l'])
            if s.st.dead: return FALSE
            if op == '&&': r = s.run_if(a, lambda: s.cond(e['r']), lambda: FALSE, e['ln'])
            else: r = s.run_if(a, lambda: TRUE, lambda: s.cond(e['r']), e['ln'])
            if r is None: return FALSE
            return r
        a, b = s.rv(s.eval(e['l'])), s.rv(s.eval(e['r']))
        return s.wrap(s.binop(op, a, b, s.realty(e['l']) or s.realty(e['r']), s.P.ty(e['l']['t']), s.P.ty(e['r']['t'])), e)
    def e_assign(s, e):
        op = e['op']
        if op == '=':
            r = s.rv(s.eval(e['r'])); l = s.lv(s.eval(e['l'])); s.write(l, r, e['ln']); return l
        l = s.lv(s.eval(e['l'])); r = s.rv(s.eval(e['r'])); o = s.read(l)
        v = s.wrap(s.binop(op[:-1], o, r, s.realty(e['l']) or s.realty(e['r']), s.P.ty(e['l']['t']), s.P.ty(e['r']['t'])), e)
        s.write(l, v, e['ln']); return l
    def e_cond(s, e):
        c = s.cond(e['c'])
        t = s.P.ty(e['t'])
        if s.st.dead: return T('undef', 'dead')
        r = s.run_if(c, lambda: s.eval(e['x']), lambda: s.eval(e['y']), e['ln'])
        return r if r is not None else T('undef', 'void')
    def e_lambda(s, e):
        fr = s.frames[-1]
        cap = Frame(fr.fn, fr); 
        for c in e['caps']:
            if c.get('init') is not None or not c['ref']:
                src = s.eval(c['init']) if c.get('init') is not None else fr.lookup(c['id'])
                if src is None: continue
                lv = LV(T('local', c['n'], s.uid())); s.write(lv, s.rv(src)); cap.vars[c['id']] = lv
        cid = s.uid(); s.clos[cid] = (e, cap); cap.label = None
        return T('clo', cid)
    def e_list(s, e):
        t = unq(s.P.ty(e['t'])); a = e['a']; n = arr_size(t)
        rec = s.P.rect.get(t)
        vals = [s.rv(s.eval(x)) for x in a]
        if rec is not None and rec['fields'] and len(a) <= len(rec['fields']):
            d = {}
            for f, v in zip(rec['fields'], vals): d[(f['n'],)] = v
            return mk_obj_raw(T('undef', 'agg'), d)
        if t.startswith('std::array') and len(vals) == 1 and vals[0].op in ('list', 'fillarr'): return vals[0]
        if n is not None and len(vals) < n:
            f = s.rv(s.eval(e['fill'])) if e.get('fill') is not None else ZERO
            vals = vals + [f] * (n - len(vals))
        if not vals and n is None:
            return ZERO if t in INTW or t in FLOATY else T('list')
        if len(vals) == 1 and n is None and (t in INTW or t in FLOATY or t.endswith('*') or t in s.P.enumnames): return vals[0]
        return T('list', *vals)
    def e_throw(s, e):
        v = s.rv(s.eval(e['e'])) if e.get('e') else T('rethrow')
        s.out.append(Exit('throw', None, v, e['ln'], s.curfn(), s.st.pc)); s.thrown.append(s.st.copy()); s.st.dead = True
        return T('undef', 'throw')
    def e_new(s, e):
        lv = LV(T('new', s.uid()))
        if e.get('init'): s.construct_into(lv, e['init'], s.P.ty(e['nt']))
        return lv.ptr()
    def e_delete(s, e):
        p = s.rv(s.eval(e['e'])); s.out.append(Ev('delete', None, [p], None, e['ln'], s.curfn(), s.st.pc))
        if s.fs and p.op == 'ptr': s.destroy(deref(p), s.P.ty(e['e']['t']).strip().rstrip('*'), e['ln'])
        return T('undef', 'void')
    def destroy(s, lv, t, ln):
        """destructor of an object of class type t, then of its members (last one first) and bases"""
        t = unq(t); rec = s.P.rect.get(t)
        if rec is None: return
        for f in s.P.d['funcs']:
            if f['kind'] == 'dtor' and f.get('clst') is not None and s.P.ty(f['clst']) == t and f.get('body') is not None and not f.get('implicit'): s.call_fn(f, lv, [], ln); break
        for fd in reversed(rec['fields']):
            if s.st.dead: return
            if '*' not in s.P.ty(fd['t']) and '&' not in s.P.ty(fd['t']): s.destroy(lv.sub(fd['n']), s.P.ty(fd['t']), ln)
    def e_sizeof(s, e): return num(int(e['cv'])) if 'cv' in e else T('sizeof', s.P.ty(e['of']))
    def e_opaque(s, e): return s.eval(e['e']) if e.get('e') else s.e_unknown(e)
    def e_arrcopy(s, e): return s.rv(s.eval(e['e']))
    def e_stmtexpr(s, e): s.exec(e['s']); return T('undef', 'void')
    # -------------------------------------------------- calls
    def e_ctor(s, e):
        lv = s.fresh('tmp'); s.do_ctor(e, lv); return lv
    def do_ctor(s, e, lv):
        t = unq(s.P.ty(e['t'])); kind = e.get('kind')
        if e.get('inherited'):
            fr = s.frames[-1]
            if fr.fn.get('params'): s.inherit_ctor(e, lv, fr); return
        if e.get('zi') and not e['a'] and t.startswith('std::array<'): s.write(lv, ZERO, e['ln']); return
        if e['f'] in s.P.F and not (e.get('defaulted') and kind in ('copy', 'move')):
            f = s.P.F[e['f']]
            if not f.get('implicit') or kind == 'default' or f.get('inits'):
                args = [s.eval(a) for a in e['a']]
                if s.st.dead: return
                s.call_fn(f, lv, args, e['ln']); return
        args = [s.eval(a) for a in e['a']]
        if s.st.dead: return
        if kind in ('copy', 'move') and len(args) >= 1:
            v = s.rv(args[0])
            if kind == 'move': s.out.append(Ev('move', None, [s.lv(args[0]).ptr()], None, e['ln'], s.curfn(), s.st.pc)) if isinstance(args[0], LV) and args[0].root.op not in ('local', 'tmp') else None
            s.write(lv, v, e['ln']); return
        if kind == 'default' and t in s.P.rect:
            s.write(lv, T('undef', 'default:' + t)); 
            for fd in s.P.rect[t]['fields']:
                if fd.get('init'): s.write(lv.sub(fd['n']), s.rv(s.eval(fd['init'])), note=False)
            return
        s.std_ctor(t, e, args, lv)
    def inherit_ctor(s, e, lv, fr):
        args = [fr.vars.get(p['id']) for p in fr.fn['params']]
        if e['f'] in s.P.F: s.call_fn(s.P.F[e['f']], lv, args, e['ln'])
        else: s.std_ctor(strip_ta(e['fn']), e, args, lv)
    def e_call(s, e):
        fid = e.get('f')
        if fid is None and 'callee' in e:
            c = s.rv(s.eval(e['callee'])); args = [s.eval(a) for a in e['a']]
            return s.apply(c, args, e['ln'], e)
        fn = strip_ta(e.get('fn', '?')); obj = None
        if 'o' in e:
            obj = s.eval(e['o'])
            if s.st.dead: return T('undef', 'dead')
            if e.get('arrow'):
                p = s.rv(obj); s.use(p, e['ln'])
                if s.clock is not None and isinstance(obj, LV): s.fresh_at(deref(p), s.pborn.get(obj.key()), e['ln'], e['o'].get('n', 'pointer'))
                obj = deref(p)
        t0 = s.clock
        if e.get('op') == '()' and obj is not None:
            ov = s.rv(obj)
            if ov.op in ('clo', 'bind', 'functor', 'fref') or not (fid in s.P.F and not s.P.F[fid]['qn'].startswith('lambda') and s.P.F[fid]['cls'] != 'lambda'):
                args = [s.eval(a) for a in e['a']]
                return s.apply(ov, args, e['ln'], e)
        f = s.P.F.get(fid)
        if f is None and fn == '__assert_fail':
            s.out.append(Exit('abort', None, T('str', 'assert'), e['ln'], s.curfn(), s.st.pc)); s.thrown.append(s.st.copy()); s.st.dead = True; return T('undef', 'void')
        if f is not None and not (f.get('implicit') and e.get('op') == '='):
            args = s.evargs(e['a'])
            if s.st.dead: return T('undef', 'dead')
            if t0 != s.clock and obj is not None: s.fresh_at(s.lv(obj), t0, e['ln'], 'the object of the call')
            return s.call_fn(f, s.lv(obj) if obj is not None else None, args, e['ln'])
        if e.get('op') == '=' and obj is not None and (f is not None or s.P.rect.get(unq(s.P.ty(e['o']['t'])))) and len(e['a']) == 1:
            v = s.rv(s.eval(e['a'][0])); s.write(s.lv(obj), v, e['ln']); return obj
        return s.std_call(fn, e, obj)
    def evargs(s, l):
        if s.clock is None: return [s.eval(a) for a in l]
        r = []
        for a in l: r.append((s.eval(a), s.clock, a))
        for x, t, a in r:
            if t != s.clock and isinstance(x, LV): s.fresh_at(x, t, a.get('ln', 0), 'an argument')
        return [x for x, t, a in r]
    def apply(s, c, args, ln, e=None):
        if c.op == 'ite':
            return s.run_if(c.args[0], lambda: s.apply(c.args[1], args, ln, e), lambda: s.apply(c.args[2], args, ln, e), ln)
        if c.op == 'clo':
            le, cap = s.clos[c.args[0]]; f = None
            if e is not None and e.get('f') in s.P.F and s.P.F[e['f']].get('cls') == 'lambda' and (e['f'] == le['f'] or e['f'] in le.get('specs', [])): f = s.P.F[e['f']]
            if f is None:
                f = s.P.F.get(le['f'])
                if f is None:
                    sp = [s.P.F[x] for x in le.get('specs', []) if x in s.P.F]
                    f = sp[0] if sp else None
            if f is None:
                s.unknown.append(('lambda', 'nobody', ln)); return T('unk', s.uid())
            return s.call_fn(f, None, args, ln, env=cap)
        if c.op == 'functor':
            a = [s.rv(x) for x in args]; real = True
            op = c.args[0]
            m = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'less': '<', 'greater': '>', 'equal_to': '=='}
            if op in m:
                ft = unq(c.args[1]) if len(c.args) > 1 and c.args[1] not in ('void', '') else s.functy
                return s.wrap(s.binop(m[op], a[0], a[1], ft not in INTW), None, ft)
            return T('fn:' + op, *a)
        if c.op == 'mk' and c.args[0].startswith('std::uniform_int_distribution') and len(c.args) == 3 and len(args) == 1:
            r = T('sym', 'rnd', s.uid()); s.assume(tm.le0(sub(c.args[1], r), True)); s.assume(tm.le0(sub(r, c.args[2]), True)); return r
        if c.op == 'bind':
            fa = []
            for x in c.args[1:]:
                fa.append(args[x.args[0] - 1] if x.op == 'ph' else x)
            return s.apply(c.args[0], fa, ln)
        if c.op == 'fref' and c.args[0] in s.P.F: return s.call_fn(s.P.F[c.args[0]], None, args, ln)
        # unknown callable: an event that may write through its reference arguments
        av = [s.rv(a) for a in args]
        s.out.append(Ev('callback', c, av, None, ln, s.curfn(), s.st.pc, extra=[a.ptr() if isinstance(a, LV) else None for a in args]))
        r = T('cbret', c, *(tuple(av) + (s.uid(),)))
        s.out[-1].res = r
        return r
    def call_fn(s, f, this, args, ln, env=None):
        s.ncalls += 1
        pol = s.policy(f)
        if callable(pol):
            r = pol(s, f, this, args, ln)
            if r is not NotImplemented: return r
            pol = 'inline'
        if pol != 'opaque' and (s.callstack.count(f['id']) >= (12 if s.fs else 1 if pol != 'rec2' else 2) or len(s.callstack) > s.maxdepth): pol = 'opaque'
        if pol == 'opaque': return s.opaque_call(f, this, args, ln)
        s.analysed.add(f['id'])
        fr = Frame(f, env); fr.label = s.uid(); fr.scope0 = len(s.scopes)
        if this is not None: fr.this = s.bind(this)
        rt = s.P.ty(f['ret']); fr.retref = rt.endswith('&')
        for i, p in enumerate(f['params']):
            a = args[i] if i < len(args) else T('undef', 'arg')
            pt = s.P.ty(p['t'])
            if a is None: continue
            if pt.endswith('&'): fr.vars[p['id']] = s.bind(s.lv(a))
            else:
                lv = LV(T('local', p['n'], s.uid())); fr.vars[p['id']] = lv; s.write(lv, s.rv(a))
        node = Call(f, fr.label, ln); node.this = this.ptr() if this is not None else None; node.args = [s.rv(a) if a is not None else None for a in args]; node.argp = [a.ptr() if isinstance(a, LV) else None for a in args]; saved = s.out; s.out = node.body
        s.frames.append(fr); s.callstack.append(f['id']); brk, s.brk = s.brk, []
        if f['kind'] == 'ctor': s.ctor_inits(f, this)
        if not s.st.dead: s.exec(f['body'])
        s.brk = brk; s.frames.pop(); s.callstack.pop(); s.out = saved; del s.scopes[fr.scope0:]
        if node.body: s.out.append(node)
        cands = fr.rets + ([(s.st, None)] if not s.st.dead else [])
        s.st, v = s.merge(cands)
        node.ret = v.ptr() if isinstance(v, LV) else v
        return v if v is not None else T('undef', 'void')
    def ctor_inits(s, f, this):
        rec = s.P.rect.get(s.P.ty(f.get('clst'))) if f.get('clst') is not None else None
        for i in f.get('inits', []):
            e = i['e']
            if 'field' in i:
                fl = this.sub(i['field']); ft = ''
                if rec:
                    for fd in rec['fields']:
                        if fd['n'] == i['field']: ft = s.P.ty(fd['t'])
                if ft.endswith('&'):
                    x = s.eval(e); s.write(fl, s.lv(x).ptr(), e['ln'], note=False)
                else: s.construct_into(fl, e, ft)
            else:
                s.construct_into(this, e, '')
    def opaque_call(s, f, this, args, ln):
        av = [s.rv(a) for a in args]
        obj = this.ptr() if this is not None else None
        pure = f.get('const') or f.get('pure')
        name = f['qs']
        ev = Ev(name, obj, av, None, ln, s.curfn(), s.st.pc, extra=[a.ptr() if isinstance(a, LV) else None for a in args])
        s.out.append(ev)
        rt = s.P.ty(f['ret'])
        if this is not None and not f.get('const') and not f.get('static') and s.mutates(f): s.havoc(this)
        for p, a in zip(f['params'], args):
            pt = s.P.ty(p['t'])
            if isinstance(a, LV) and pt.endswith('&') and not pt.startswith('const') and not pt.endswith('&&') and s.argmut(f, p): s.havoc(a)
            elif pt.endswith('*') and not pt.startswith('const') and a is not None and s.argmut(f, p):
                q = s.rv(a)
                if q.op == 'ptr': s.havoc(LV(q.args[0], q.args[1][:-1] if q.args[1] and isinstance(q.args[1][-1], T) else q.args[1]))
        r = T('ret', name, *( [x for x in av if isinstance(x, T)] + [s.uid()]))
        ev.res = r
        if rt == 'void': return T('undef', 'void')
        if rt.endswith('&'): return LV(T('deref', r))
        return r
    def mutates(s, f): return True
    def argmut(s, f, p): return True
    # -------------------------------------------------- entry
    def entry(s, f, argvals=None, this=None):
        """summarise function f; returns (nodes, retval)"""
        fr = Frame(f); fr.label = 0; s.scopes = []; fr.scope0 = 0
        if f.get('cls') and not f.get('static'): fr.this = this or LV(T('this'))
        rt = s.P.ty(f['ret']); fr.retref = rt.endswith('&')
        for i, p in enumerate(f['params']):
            pt = s.P.ty(p['t'])
            if argvals and i in argvals:
                v = argvals[i]
                if isinstance(v, LV): fr.vars[p['id']] = v
                else:
                    lv = LV(T('local', p['n'], s.uid())); fr.vars[p['id']] = lv; s.write(lv, v)
                continue
            root = T('arg', i)
            if pt.endswith('&'): fr.vars[p['id']] = LV(root)
            else:
                lv = LV(T('local', p['n'], s.uid())); fr.vars[p['id']] = lv
                ut = unq(pt)
                if ut.endswith('*') and unq(ut[:-1]) in set(INTW) | FLOATY or '__normal_iterator' in ut: s.write(lv, T('ptr', root, (ZERO,)))
                else: s.write(lv, T('ld', root, ()))
        s.frames.append(fr); s.callstack.append(f['id']); s.out = out = []; s.analysed.add(f['id'])
        if f['kind'] == 'ctor': s.ctor_inits(f, fr.this)
        s.exec(f['body'])
        cands = fr.rets + ([(s.st, None)] if not s.st.dead else [])
        s.st, v = s.merge(cands)
        s.frames.pop(); s.callstack.pop()
        s.args = [fr.vars[p['id']] for p in f['params']]
        return out, v

def walk_exits(nodes):
    for n in nodes:
        if n.kind == 'exit': yield n
        elif n.kind == 'if': yield from walk_exits(n.a); yield from walk_exits(n.b)
        elif n.kind in ('loop', 'call', 'block'):
            yield from walk_exits(n.body)
            for h in getattr(n, 'handlers', []): yield from walk_exits(h)
def walk(nodes):
    for n in nodes:
        yield n
        if n.kind == 'if': yield from walk(n.a); yield from walk(n.b)
        elif n.kind in ('loop', 'call', 'block'):
            yield from walk(n.body)
            for h in getattr(n, 'handlers', []): yield from walk(h)
