"""Shape analysis of the recency list: every public operation of the cache is interpreted abstractly on every canonical list shape
(free slots on the old side, occupied slots on the new side, each operation at each position) and must produce exactly the shape,
key map and payloads that least-recently-used order prescribes. Together with the constructor this is an induction over all
histories. The relinking code is loop-free (checked), so it only reaches the element, its neighbours and the two ends; lists of up
to six slots contain every coincidence of those, so longer lists add nothing."""
from common import *
MIN_OBLIGATIONS = 400
MAXD = 6
C = T('arg', 0)
def node(i): return T('new', 'N%d' % i)
def ptr(i): return T('ptr', node(i), ())
def key(i): return num(1000 + i)
def pay(i): return T('sym', 'payload', num(i))
class Shape:
    """slots in list order; occ: index of first occupied slot"""
    def __init__(s, d, nocc): s.order = list(range(d)); s.occ = {i: key(i) for i in range(d - nocc, d)}; s.pay = {i: pay(i) for i in range(d)}; s.d = d
    def load(s, I):
        def w(root, path, v): I.write(LV(root, path), v, note=False)
        n = s.d
        for j, i in enumerate(s.order):
            w(node(i), ('prev',), ptr(s.order[j - 1]) if j else T('null')); w(node(i), ('next',), ptr(s.order[j + 1]) if j + 1 < n else T('null'))
            w(node(i), ('occupied',), tm.boolt(i in s.occ)); w(node(i), ('payload',), s.pay[i])
            w(node(i), ('index',), s.occ.get(i, T('sym', 'stale', num(i))))
        w(C, ('m_oldest',), ptr(s.order[0])); w(C, ('m_newest',), ptr(s.order[-1])); w(C, ('m_depth',), num(n))
        w(C, ('m_accessor', '#has'), T('fillarr', FALSE)); w(C, ('m_accessor', '#size'), num(len(s.occ)))
        for i, k in s.occ.items(): w(C, ('m_accessor', '#has', k), TRUE); w(C, ('m_accessor', k), ptr(i))
    def newest(s, i): s.order.remove(i); s.order.append(i)
    def oldest(s, i): s.order.remove(i); s.order.insert(0, i)
    def desc(s): return '%d slots, %d occupied' % (s.d, len(s.occ))
def walk_list(I, start, link):
    out = []; p = start; seen = set()
    while p.op != 'null':
        if p.op != 'ptr' or p.args[0].op != 'new' or p.args[1]: return None
        r = p.args[0]
        if r in seen: return out + ['cycle']
        seen.add(r); out.append(int(str(r.args[0])[1:])); p = I.read(LV(r, (link,)))
    return out
def compare(ctx, f, I, s, what, keys):
    """post-state of the interpreter against the shape s"""
    def eq(rule, got, want, detail):
        if got is None: ctx.unk(rule, detail)
        elif got == want: ctx.ok(rule, detail)
        else: ctx.violation(rule, f, '%s: %s, must be %s' % (detail, got, want))
    rd = lambda root, *p: I.read(LV(root, p))
    eq('entries stay linked in recency order', walk_list(I, rd(C, 'm_oldest'), 'next'), s.order, what + ': slots from old to new')
    eq('entries stay linked in recency order', walk_list(I, rd(C, 'm_newest'), 'prev'), s.order[::-1], what + ': slots from new to old')
    for i in range(s.d):
        ctx.equal('occupied flag', f, rd(node(i), 'occupied'), tm.boolt(i in s.occ), '%s: slot %d' % (what, i))
        if i in s.occ: ctx.equal('payload', f, rd(node(i), 'payload'), s.pay[i], '%s: slot %d' % (what, i)); ctx.equal('key of the slot', f, rd(node(i), 'index'), s.occ[i], '%s: slot %d' % (what, i))
    inv = {k: i for i, k in s.occ.items()}
    for k in keys:
        ctx.equal('key map', f, I.read(LV(C, ('m_accessor', '#has', k))), tm.boolt(k in inv), '%s: key %s present' % (what, tm.show(k)))
        if k in inv: eq('key map', (lambda p: tm.show(p) if p.op == 'ptr' else None)(I.read(LV(C, ('m_accessor', k)))), tm.show(ptr(inv[k])), '%s: slot of key %s' % (what, tm.show(k)))
    ctx.equal('number of entries', f, rd(C, 'm_accessor', '#size'), num(len(s.occ)), what)
def check(ctx):
    P = ctx.program('probe_cache.cc'); F = lambda n: ctx.fn('probe::' + n); new = num(5000); nv = T('sym', 'value'); n = 0
    allk = [key(i) for i in range(MAXD)] + [new]
    def go(name, s, args=()):
        nonlocal n; n += 1
        f = F(name); I = Interp(ctx.P); s.load(I); I = ctx.run(f, I=I, argvals={i + 1: a for i, a in enumerate(args)})
        return f, I
    def refused(f, I, s, what):
        if I.st.dead: ctx.ok('misuse is refused', what)
        elif any(x.what in ('abort', 'throw') for x in walk_exits(I.nodes)): ctx.unk('misuse is refused', what)
        else: ctx.violation('misuse is refused', f, what + ': accepted')
    def alive(f, I, what):
        if I.st.dead: ctx.violation('valid use is accepted', f, what + ': refused'); return False
        return True
    def loopfree(I):
        return not any(x.kind == 'loop' for x in walk(I.nodes))
    free = True
    for d in range(1, MAXD + 1):
        for k in range(d + 1):
            mk = lambda: Shape(d, k)
            s = mk(); f, I = go('free_slot', s); ctx.equal('free slots are reported', f, I.rvret, tm.boolt(k < d), s.desc())
            for q in [key(i) for i in range(d)] + [new]:
                s = mk(); f, I = go('has', s, [q]); ctx.equal('entries are found by their key', f, I.rvret, tm.boolt(q in s.occ.values()), '%s, key %s' % (s.desc(), tm.show(q)))
            for name in ('inserted', 'put'):
                s = mk(); what = '%s, inserting a new key' % s.desc(); f, I = go(name, s, [new, nv]); free &= loopfree(I)
                if k == d: refused(f, I, s, what)
                elif alive(f, I, what):
                    i = s.order[0]; s.newest(i); s.occ[i] = new; s.pay[i] = nv; compare(ctx, f, I, s, what, allk)
            for i in range(d - k, d):
                s = mk(); what = '%s, inserting the key of slot %d again' % (s.desc(), i); f, I = go('inserted', s, [key(i), nv]); refused(f, I, s, what)
                s = mk(); what = '%s, looking up slot %d' % (s.desc(), i); f, I = go('got', s, [key(i)]); free &= loopfree(I)
                if alive(f, I, what): ctx.equal('lookup returns the entry', f, I.rvret, s.pay[i], what); s.newest(i); compare(ctx, f, I, s, what, allk)
                s = mk(); what = '%s, evicting slot %d' % (s.desc(), i); f, I = go('evicted', s, [key(i)]); free &= loopfree(I)
                if alive(f, I, what): ctx.equal('eviction returns the entry', f, I.rvret, s.pay[i], what); s.oldest(i); del s.occ[i]; compare(ctx, f, I, s, what, allk)
            s = mk(); what = '%s, evicting the oldest' % s.desc(); f, I = go('evicted_oldest', s); free &= loopfree(I)
            if k < d: refused(f, I, s, what)
            elif alive(f, I, what): i = s.order[0]; ctx.equal('eviction returns the oldest entry', f, I.rvret, s.pay[i], what); del s.occ[i]; compare(ctx, f, I, s, what, allk)
            s = mk(); what = '%s, evicting a key that is not there' % s.desc(); f, I = go('evicted', s, [new]); refused(f, I, s, what)
            for name, o in (('old_to_new', s.order), ('new_to_old', s.order[::-1])):
                s = mk(); f, I = go(name, s); got = [e.args[0] for e in events(I.nodes, 'callback')]; want = [s.pay[i] for i in o if i in s.occ]
                if any(x.kind == 'loop' for x in walk(I.nodes)): ctx.unk('visits', s.desc())
                elif got == want: ctx.ok('every entry is visited once, in order', '%s, %s' % (s.desc(), name))
                else: ctx.violation('every entry is visited once, in order', f, '%s, %s: visits %s' % (s.desc(), name, [tm.show(x) for x in got]))
    if not free: ctx.unk('relinking is loop-free', 'the operations contain a loop')
    else: ctx.ok('relinking is loop-free')
    # construction
    for d in range(1, MAXD + 1):
        f = F('built'); I = ctx.run(f, argvals={0: num(d)}); n += 1; what = 'new cache with %d slots' % d
        root = next((r for r, m in I.st.store.items() if r.op == 'local' and ('m_oldest',) in m), None)
        if root is None: ctx.unk('a new cache is empty and fully linked', what); continue
        def follow(p, link):
            out = []
            while p.op != 'null':
                if p.op != 'ptr' or len(out) > 2 * d: return None if p.op != 'ptr' else out
                out.append((p.args[0], p.args[1])); p = I.read(LV(p.args[0], p.args[1] + (link,)))
            return out
        a, b = follow(I.read(LV(root, ('m_oldest',))), 'next'), follow(I.read(LV(root, ('m_newest',))), 'prev')
        rule = 'a new cache is empty and fully linked'
        if a is None or b is None: ctx.unk(rule, what); continue
        for x in (a, b):
            if len(x) == d and len(set(x)) == d and all(I.decide(notb(eqt(T('ptr', *p), T('ptr', *q)))) is not FALSE for p in x for q in x if p != q): ctx.ok(rule, what)
            else: ctx.violation(rule, f, '%s: %d slots are linked' % (what, len(set(x))))
        if b == a[::-1]: ctx.ok(rule, what)
        else: ctx.violation(rule, f, what + ': the two directions disagree')
        for p in a: ctx.equal(rule, f, I.read(LV(p[0], p[1] + ('occupied',))), FALSE, what + ': slot free')
        ctx.equal(rule, f, I.read(LV(root, ('m_accessor', '#size'))), ZERO, what + ': no entries'); ctx.equal(rule, f, I.read(LV(root, ('m_depth',))), num(d), what + ': capacity')
        ctx.equal(rule, f, I.read(LV(root, ('m_accessor', '#has', new))), FALSE, what + ': no key')
    ctx.atleast('operations on shapes', n, 200)
