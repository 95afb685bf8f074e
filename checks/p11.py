"""P11: spatial queries return exactly the elements they should. Box predicates are decided for symbolic boxes and on a sweep of constant ones; then, after
interpreted sequences of insertions, box updates, rebuilds and clearing (with the actual and with arbitrary outcomes of the balancing heuristics), point
and region queries are compared with the elements that the sequence prescribes - starting with the empty index."""
from tree import *
import p10
TECHNIQUE = 'abstract interpretation of operation and query sequences of the spatial index, comparison with the prescribed set of elements; value-graph comparison of the box predicates'
def predicates(ctx, P):
    R = 'overlap of boxes'
    for d in (1, 2, 3):
        m = Machine(ctx, P); V = lambda t: [T('sym', t, num(a)) for a in range(d)]
        b, e, b2, e2 = V('b'), V('e'), V('b2'), V('e2'); k = m.save(); f = m.F['overlaps', d]
        v = m.call('overlaps', d, b=b, e=e, b2=b2, e2=e2)
        w = TRUE
        for a in range(d): w = andb(w, andb(tm.lt0(sub(b[a], e2[a]), True), tm.lt0(sub(b2[a], e[a]), True)))
        if m.I.st.dead or m.vague or v is None: ctx.unk(R, str(d))
        else: ctx.equal(R, f, v, w, '%d-D: boxes overlap exactly if each starts before the other ends, along every axis' % d)
        R2 = 'a box contains a point exactly if it lies in [start, end)'; f = m.F['contains', d]
        for st, sh in ((0, 1), (0, 3), (5, 1), (5, 4), (1000, 7)):
            for a in range(d):
                for x in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 999, 1000, 1006, 1007, 2 ** 63, 2 ** 64 - 1):
                    m.load(k); B = [50] * d; E = [52] * d; X = [51] * d; B[a] = st; E[a] = st + sh; X[a] = x
                    v = m.call('contains', d, b=B, e=E, i=X)
                    if m.I.st.dead or m.vague or v not in (TRUE, FALSE): ctx.unk(R2, ''); continue
                    ctx.require(R2, f, (v is TRUE) == (st <= x < st + sh), '%d-D: [%d, %d) along axis %d and index %d: %s' % (d, st, st + sh, a, x, tm.show(v)))
def history(ctx, P, x):
    d, name, order, L, n, seed, kind = x; r = random.Random(11 * n + d)
    t = Tree(ctx, P, d, seed, judge='queries', n=1 + n % 3)
    def look(n=4): t.ok and t.queries(r, n)
    if not t.ok: return
    if kind == 'overlapping':
        for i in range(n):
            b = [r.randrange(12) for _ in range(d)]; t.ok and t.insert(b, [x + r.randrange(1, 9) for x in b])
            if i % 6 == 5: look(3)
        look(6); return
    boxes = ordered(L(n), order, r)
    # the empty index
    look(); t.ok and t.call('upd', i=[0] * d, b=[1] * d, e=[2] * d); look(2)
    if kind != 'insert': t.ok and t.rebuild(); look(2)
    for i, (b, e) in enumerate(boxes):
        if not t.ok: return
        t.insert(b, e)
        if i < 3 or i % 5 == 0: look(3)
        if kind == 'update' and i % 4 == 3 and t.ok:
            p = r.choice(sorted(t.spec)); c, f = t.spec[p]; t.point(c); old = (c, f)
            t.update(p, [y + 1000 + 50 * i for y in c], [y + 1003 + 50 * i for y in f]) if i % 8 == 3 else t.update(p, c, [y - (1 if y - z > 1 else 0) for y, z in zip(f, c)])
            t.point(old[0]); t.point([y - 1 for y in old[1]]); t.ok and t.point(t.spec[p][0])
        if kind == 'rebuild' and i in (0, 2, 9, 10, n - 3) and t.ok: t.point(t.spec[0][0]); t.rebuild(); look(3)
    if kind == 'rebuild': t.ok and t.rebuild()
    look(10)
    if not t.ok: return
    gone = list(t.spec.values())[-1]; t.point(gone[0]); t.ok and t.clear(); t.ok and t.point(gone[0]); look(1)
    for b, e in boxes[2:5]: t.ok and t.insert(b, e)
    t.ok and t.point(gone[0]); look(3)
    ctx.ok('history', t.what())
def check(ctx):
    P = ctx.program('probe_tree.cc'); deep = ctx.tier == 'thorough'
    p10.boxes(ctx, P); predicates(ctx, P)
    items = []
    for d in ((1, 2, 3) if deep else (1, 2)):
        for j, (name, order, L) in enumerate(layouts(d, random.Random(3))):
            if deep or j % 2: items.append((d, name, order, L, 23, None, ('insert', 'rebuild', 'update')[j // 2 % 3]))
            for seed in range(3 if deep else 1): items.append((d, name, order, L, (40 if deep else 25) + 3 * seed, 100 * j + seed, ('update', 'insert', 'rebuild')[(j + seed) % 3]))
        for j in range(9 if deep else 3): items.append((d, 'overlapping', '', None, 20 + 2 * j, None if j % 3 == 0 else j, 'overlapping'))
    items.sort(key=lambda x: -x[4] * x[0] * (3 if x[5] is None else 1))
    parallel(ctx, items, lambda x: history(ctx, P, x))
    ctx.atleast('obligations', len(ctx.oblig) + len(ctx.viol), 500)
    ctx.rule = 'answers of point and region queries after every history'
