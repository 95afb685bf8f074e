"""P12: references into growable storage do not outlive its growth. Histories of insertions, updates, rebuilds, registrations and queries that start
with pools of one slot are interpreted over an abstract heap with a re-allocation clock: every reference remembers when it was bound, and a use after
the container it points into was re-allocated is a violation. All sequences of slot operations of the pool up to a depth are compared with the set of
slots in use."""
from tree import *
import index
TECHNIQUE = 'typestate of references against container re-allocations along abstractly interpreted operation histories; exhaustive slot histories of the pool'
class Quiet:
    """only the re-allocation rule is judged; everything else belongs to other checks"""
    def __init__(s, ctx): s.c = ctx; s.skipped = 0
    def __getattr__(s, n): return getattr(s.c, n)
    def violation(s, rule, f, detail, ln=None):
        if rule.startswith('references are not used'): s.c.violation(rule, f, detail, ln)
    def ok(s, rule, what=''):
        if rule.startswith('references are not used'): s.c.ok(rule, what)
    def unk(s, rule, what): s.c.unk('history', what)
    def require(s, rule, f, verdict, detail, ln=None): return verdict
    def equal(s, *a, **k): return True
def pools(ctx, P, n, depth):
    m = Machine(ctx, P, 'pool'); m.budget = 4000000; m.limit = 20
    if not {('make', 0), ('get', 0), ('free', 0)} <= set(m.F): raise Broken('the pool operations cannot be driven')
    c = m.call('make', 0, n=n)
    if m.I.st.dead or m.vague: ctx.unk('pool', 'cannot be set up'); return
    def what(tr): return 'pool of %d: %s' % (n, ', '.join(tr))
    def look(tr, use):
        R = 'the pool keeps what is stored in it'; lv = m.I.fresh('out'); l2 = m.I.fresh('arg'); m.I.write(l2, lv.sub(ZERO).ptr(), note=False)
        for sl, v in use.items(): ctx.equal(R, m.last, m.call('read', 0, p=c, s=int(sl)), num(v), what(tr) + ': slot %s' % sl)
        r = m.call('all', 0, p=c, out=l2)
        if m.I.st.dead: ctx.violation(R, m.last, what(tr) + ': listing is refused: ' + m.why()); return
        k = const(r) if r is not None else None; l = [const(m.I.read(lv.sub(num(i)))) for i in range(int(k))] if k is not None else None
        if l is None or None in l or m.vague: ctx.unk(R, what(tr)); return
        ctx.require(R, m.last, sorted(l) == sorted(use.values()), '%s: lists %s instead of %s' % (what(tr), [int(x) for x in l], sorted(use.values())))
    def go(left, use, tr, cnt):
        for op in ['get'] + ['free %d' % i for i in sorted({0, len(use) // 2, len(use) - 1}) if 0 <= i < len(use)] + ['reset']:
            if op == 'reset' and (not use or left < 2): continue
            k = m.save(); u = dict(use); t = tr + [op]; R = 'a slot is handed out at most once while it is in use'
            if op == 'get':
                sl = m.call('get', 0, p=c, v=cnt + 1); bad = m.I.st.dead
                if not bad:
                    sl = const(sl) if sl is not None else None
                    if sl is None or m.vague: ctx.unk(R, what(t)); m.load(k); continue
                    if not ctx.require(R, m.last, sl not in u, '%s: slot %d is handed out while in use (%s)' % (what(t), sl, sorted(int(x) for x in u))): m.load(k); continue
                    u[sl] = cnt + 1
            elif op == 'reset': m.call('reset', 0, p=c); bad = m.I.st.dead; u = {}
            else:
                sl = list(u)[int(op[5:])]; m.call('free', 0, p=c, s=int(sl)); bad = m.I.st.dead; del u[sl]
            if bad: ctx.violation('the operation is carried out', m.last, what(t) + ': refused: ' + m.why()); m.load(k); continue
            if m.vague: ctx.unk(R, what(t)); m.load(k); continue
            k2 = m.save(); look(t, u); m.load(k2)
            if left > 1 and len(ctx.viol) < 20: go(left - 1, u, t, cnt + 1)
            m.load(k)
    go(depth, {}, [], 0)
    # a slot that is given back becomes available again
    R = 'a freed slot becomes available again'; seen = set(); live = []
    for i in range(40):
        for _ in range(2):
            sl = m.call('get', 0, p=c, v=i); sl = const(sl) if sl is not None else None
            if sl is None or m.I.st.dead or m.vague: ctx.unk(R, ''); return
            seen.add(sl); live.append(sl)
        for sl in (live if i % 2 else live[::-1]): m.call('free', 0, p=c, s=int(sl))
        if m.I.st.dead or m.vague: ctx.unk(R, ''); return
        live = []
    ctx.require(R, m.last, len(seen) <= 8 + 4 * n, 'pool of %d: 40 times two slots taken and given back need %d different slots' % (n, len(seen)))
def tree(ctx, P, item):
    d, name, order, L, n, seed, kind = item; q = Quiet(ctx); r = random.Random(seed)
    boxes = ordered(L(n), order, r); t = Tree(q, P, d, seed, judge='', n=1)
    for i, (b, e) in enumerate(boxes):
        if not t.ok: return
        t.insert(b, e)
        if i % 6 == 5 and kind != 'insert' and t.ok:
            p = r.choice(sorted(t.spec)); c, f = t.spec[p]
            if kind == 'update': t.update(p, c, [y - (1 if y - z > 1 else 0) for y, z in zip(f, c)])
            else: t.rebuild()
    if t.ok: t.queries(r, 2)
    if t.ok and kind == 'rebuild':
        t.clear()
        for b, e in boxes[:3]: t.ok and t.insert(b, e)
def check(ctx):
    P = ctx.program('probe_tree.cc'); deep = ctx.tier == 'thorough'
    for n in (1, 2): pools(ctx, P, n, 7 if deep else 5)
    Machine.epochs = True; items = []
    for d in (1, 2, 3) if deep else (1, 2):
        for j, (name, order, L) in enumerate(layouts(d, random.Random(3))):
            if not deep and j % 2 == d % 2: continue
            for seed in (None, 7 + j): items.append((d, name, order, L, (40 if deep else 26) if d < 3 else 16, seed, ('insert', 'rebuild', 'update')[(j + d) // 2 % 3]))
    items.sort(key=lambda x: -x[4] * x[0] * (4 if x[5] is None else 1))
    parallel(ctx, items, lambda x: tree(ctx, P, x))
    P2 = ctx.program('probe_index.cc'); q = Quiet(ctx)
    def hist(x):
        h = index.IHist(q, P2, x[0], 'index')
        for op in x[1]:
            if not h.ok or not h.legal(op) or not h.do(op): return
        h.look()
    parallel(ctx, [(d, w) for d in (1, 2) for w in ('rrrr', 'rgrg', 'rrslr', 'rnorg', 'rrsIr', 'rmrlr', 'rrqp', 'rprq', 'rrcrg')], hist)
    ctx.atleast('obligations', len(ctx.oblig) + len(ctx.viol), 300)
    ctx.rule = 'no use of a reference bound before the last re-allocation of its container; slots in use are distinct, keep their content, and return to the pool'
