"""Histories of operations on objects with a file store: the operations (functions of a probe driver) are interpreted one after the
other over one abstract store (heap and files), with element values that are distinct symbols. States are forked between operations."""
from common import *
import itertools
class Dead(Exception): pass
class Machine:
    epochs = False        # watch for references that outlive a re-allocation of the container they point into
    def __init__(s, ctx, P, cls='probe', policy=None):
        s.ctx = ctx; s.P = P; s.F = {}; s.limit = 20; s.budget = 400000
        for f in P.d['funcs']:
            m = re.match(cls + r'<(\d+)', f['qn'])
            if not m and f['qs'] == cls + '::' + f['n'] and f['qn'].startswith(cls + '::'): s.F.setdefault((f['n'], 0), f)
            if m and f['qs'] == cls + '::' + f['n']: s.F.setdefault((f['n'], int(m.group(1))), f)
        I = s.I = Interp(P, policy); I.fs = True; I.fslog = []; I.bounds = None
        if s.epochs: I.clock = 0; I.grown = {}; I.pborn = {}; I.stales = []
        I.fs_put(T('str', '/w'), T('dir'))
    def save(s): I = s.I; n = I.st.copy(); I.st.own = False; return n, I.fspaths and dict(I.fspaths)
    def load(s, x): s.I.st = x[0].copy(); s.I.fspaths = x[1] and dict(x[1]); s.I.fslog = []
    def nonzero(s, *vs):
        for v in vs: s.I.st.pc = s.I.st.pc + (notb(eqt(v, ZERO)),)
    def syms(s, tag, n):
        v = [T('sym', tag, num(i)) for i in range(n)]; s.nonzero(*v); return v
    def call(s, name, d, /, **av):
        """result of the operation; I.st.dead when it is refused (throws or aborts) on every path"""
        I = s.I; f = s.F[name, d]; I.steps = s.budget; I.deadline = time.time() + s.limit; I.fslog = []; I.thrown = []; n0 = len(I.unknown)
        a = {}
        for i, p in enumerate(f['params']):
            v = av[p['n']]; t = s.P.ty(p['t']); lv = I.fresh('arg')
            if isinstance(v, list):
                ptr = t.endswith('*'); inner = lambda k: lv.sub(num(k)) if ptr else lv.sub('m_data').sub(num(k))
                for k, x in enumerate(v): I.write(inner(k), x if isinstance(x, T) else num(x), note=False)
                if ptr: l2 = I.fresh('arg'); I.write(l2, lv.sub(ZERO).ptr(), note=False); a[i] = l2
                else: a[i] = lv
            elif isinstance(v, bool): a[i] = tm.boolt(v)
            elif isinstance(v, int): a[i] = num(v)
            elif isinstance(v, str): I.write(lv, T('str', v), note=False); a[i] = lv
            elif isinstance(v, T) and t.endswith('&'): a[i] = deref(v)
            else: a[i] = v
        pc0 = I.st.pc
        nodes, v = I.entry(f, a); I.nodes = nodes; s.last = f
        for j in I.analysed: s.ctx.funcs.add(s.P.F[j]['qn'][:160])
        s.vague = len(I.unknown) > n0
        r = I.rv(v) if v is not None else None
        if s.epochs: s.stale()
        s.collect(r)
        return r
    def stale(s):
        I = s.I; R = 'references are not used after the storage they point into may have been re-allocated'; seen = set()
        if not I.stales and I.clock: s.ctx.ok(R, '')
        for what, ln, fn, lv in I.stales:
            k = (what, fn and fn['id'])
            if k in seen: continue
            seen.add(k)
            if not hasattr(s.ctx, 'staleseen'): s.ctx.staleseen = set()
            if k in s.ctx.staleseen: continue
            s.ctx.staleseen.add(k)
            s.ctx.violation(R, fn or s.last, '`%s` refers to %s, which has been re-allocated since (during %s)' % (what, tm.pathstr(lv.path)[:120], s.last['n']), ln or None)
        I.stales = []
    def collect(s, ret=None):
        """forgets the local variables of finished calls"""
        st = s.I.st; loc = {r for r in st.store if r.op in ('local', 'tmp')}
        if len(loc) < 50: return
        seen = set(); work = [v for r, m in st.store.items() if r not in loc for v in m.values()] + list(st.pc) + [ret]
        while work:
            t = work.pop()
            if isinstance(t, tuple): work.extend(t); continue
            if isinstance(t, LV): t = t.root
            if not isinstance(t, T) or t in seen: continue
            seen.add(t)
            if t in loc: loc.discard(t); work.extend(st.store[t].values())
            work.extend(t.args)
        I = s.I; n = I.st.copy(); w = n.wr()
        for r in loc: w.pop(r, None)
        I.st = n
    def out(s, n):
        lv = s.I.fresh('out'); l2 = s.I.fresh('arg'); s.I.write(l2, lv.sub(ZERO).ptr(), note=False); return l2, [lv.sub(num(i)) for i in range(n)]
    def why(s):
        for n in walk_exits(s.I.nodes):
            if n.kind == 'exit' and n.what in ('throw', 'abort'): return tm.show(n.val)[:160] if n.val is not None else 'assertion at line %s' % n.ln
        return '?'
    def files(s): return sorted(k[0] for k, v in s.I.st.store.get(T('fs'), {}).items() if v.op not in ('absent', 'dir'))
