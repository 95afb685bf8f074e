"""P10: node boxes enclose what lies below, every element is reachable once, capacities hold. Sequences of operations on the spatial index are interpreted
over an abstract heap, with the actual heuristics and with arbitrary outcomes of them, and the node structure is compared after each operation;
box algebra and small trees are decided for symbolic boxes."""
from tree import *
TECHNIQUE = 'abstract interpretation of operation sequences of the spatial index (shape invariant of the node structure), value-graph comparison of the box algebra'
def boxes(ctx, P):
    """symbolic box algebra; ctx.unions: box union does what it must"""
    ctx.unions = True
    for d in (1, 2, 3):
        m = Machine(ctx, P); V = lambda t: [T('sym', t, num(a)) for a in range(d)]
        b, e, b2, e2 = V('b'), V('e'), V('b2'), V('e2')
        k = m.save()
        for name, lo, hi in (('extend', lambda a: minmax('min', b[a], b2[a]), lambda a: minmax('max', e[a], e2[a])), ('hull', lambda a: minmax('min', b[a], b2[a]), lambda a: minmax('max', e[a], e2[a])), ('fromnone', lambda a: minmax('min', b[a], b2[a]), lambda a: minmax('max', e[a], e2[a])),
                             ('reset', lambda a: b2[a], lambda a: e2[a]), ('update', lambda a: b2[a], lambda a: e2[a]), ('copy', lambda a: b2[a], lambda a: e2[a])):
            m.load(k)
            v = m.call(name, d, b=b, e=e, b2=b2, e2=e2)
            if m.I.st.dead or m.vague or v is None: ctx.unk('box algebra', name); ctx.unions = False; continue
            for a in range(d):
                for q, w in (('start_coords', lo(a)), ('end_coords', hi(a)), ('shape', sub(hi(a), lo(a)))):
                    g = proj(v, (q, 'm_data', num(a)))
                    # saturated at the limits of the coordinate type
                    if ctx.equal('boxes are united, copied and replaced as a whole', m.last, cut(g, b + e + b2 + e2), cut(w, b + e + b2 + e2), '%d-D %s: %s[%d]' % (d, name, q, a)) is not True: ctx.unions = False
def cut(t, syms):
    """coordinates are within the range of their type"""
    return tm.subst(t, {x: minmax('min', minmax('max', x, ONE), num(2 ** 40)) for x in syms})
def small(ctx, P):
    """trees of a few elements with symbolic boxes"""
    for d in (1, 2):
        for n in (1, 2, 3, 4):
            t = Tree(ctx, P, d)
            if not t.ok: return
            B = [[T('sym', 'b', num(i), num(a)) for a in range(d)] for i in range(n)]; E = [[T('sym', 'e', num(i), num(a)) for a in range(d)] for i in range(n)]; syms = [x for v in B + E for x in v]
            for i in range(n):
                t.trace.append('insert'); t.call('ins', b=B[i], e=E[i], p=i)
                if not t.ok: return
            for q, X, op in (('lo', B, 'min'), ('hi', E, 'max')):
                v = t.call(q)
                if not t.ok: return
                for a in range(d):
                    w = X[0][a]
                    for i in range(1, n): w = minmax(op, w, X[i][a])
                    ctx.equal('the root box is the union of the boxes', t.m.last, cut(proj(v, ('m_data', num(a))), syms), cut(w, syms), '%d-D, %d elements with arbitrary boxes, axis %d' % (d, n, a))
def history(ctx, P, x):
    d, name, order, L, n, seed, kind = x; r = random.Random(7)
    t = Tree(ctx, P, d, seed, n=1 + (n % 3))
    boxes = [(tuple(y + 100 for y in b), tuple(y + 100 for y in e)) for b, e in ordered(L(n), order, r)]
    if kind == 'insert':
        for b, e in boxes:
            if not t.ok: return
            t.insert(b, e)
    elif kind == 'rebuild':
        if t.ok: t.rebuild()
        for i, (b, e) in enumerate(boxes):
            if not t.ok: return
            t.insert(b, e)
            if i in (0, n // 2, n - 4): t.ok and t.rebuild()
        if t.ok: t.rebuild()
        if t.ok: t.clear()
        for b, e in boxes[:12]: t.ok and t.insert(b, e)
    else:
        for i, (b, e) in enumerate(boxes):
            if not t.ok: return
            t.insert(b, e)
            if i % 4 == 3 and t.ok:
                p = r.choice(sorted(t.spec)); c, f = t.spec[p]
                # grown or moved to where nothing is
                if i % 8 == 3:
                    t.update(p, [y + 1000 + 50 * i for y in c], [y + 1003 + 50 * i for y in f])
                    if t.ok: t.update(p, [y + 980 + 50 * i for y in c], [y + 1001 + 50 * i for y in f])      # towards smaller coordinates
                elif i % 16 == 7:      # the lowest element, to even lower coordinates (its node and all above it grow)
                    a = i // 16 % d; p = min(t.spec, key=lambda q: t.spec[q][0][a]); c, f = t.spec[p]; c2 = [y - 3 * (j == a) for j, y in enumerate(c)]
                    if not any(all(x < y and z > w for x, y, z, w in zip(c2, g, f, b2)) for q, (b2, g) in t.spec.items() if q != p): t.update(p, c2, f)
                else: t.update(p, c, [y - (1 if y - z > 1 else 0) for y, z in zip(f, c)])
    ctx.ok('history', t.what())
def check(ctx):
    P = ctx.program('probe_tree.cc'); deep = ctx.tier == 'thorough'
    boxes(ctx, P); small(ctx, P)
    items = []
    for d in ((1, 2, 3) if deep else (1, 2)):
        for j, (name, order, L) in enumerate(layouts(d, random.Random(3))):
            if deep or j % 3 == (2 if d == 2 else j // 3 % 3): items.append((d, name, order, L, 24 if d < 3 else 14, None, 'insert' if j % 2 else 'update'))
            for seed in range(3 if deep else 1):
                n = (110 if deep else 90) if d == 1 and seed == 0 and order == 'shuffled' and name == 'tiles' else 45 if deep else 30 if d == 1 else 24
                items.append((d, name, order, L, n, 100 * j + seed, ('insert', 'rebuild', 'update')[(j + seed) % 3]))
    items.sort(key=lambda x: -x[4] * x[0] * (4 if x[5] is None else 1))
    parallel(ctx, items, lambda x: history(ctx, P, x))
    ctx.atleast('obligations', len(ctx.oblig) + len(ctx.viol), 500)
    ctx.rule = 'shape invariant of the node structure after every operation'
