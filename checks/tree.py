"""Typestate exploration of the spatial index: sequences of insertions, box updates, rebuilds and clearing are interpreted over an abstract heap; after each
operation the whole node structure is compared with the elements that the sequence prescribes. The values on which the balancing heuristics
decide (volumes, overlaps, enlargements) can be replaced by arbitrary ones, so that the result does not hang on what the heuristics choose."""
from machine import *
import random
HEUR = {'child_overlap_enlargement', 'node_volume_enlargement', 'node_volume', 'volume', 'margin', 'compute_overlap_volume'}
INVALID = 2 ** 64 - 1
def capacity(P):
    m = re.search(r'\bMAX_NODESIZE\s*=\s*(\d+)', open(os.path.join(frontend.REPO, 'eisvogel/core/impl/RStarTree.hh'), errors='replace').read())
    return int(m.group(1)) if m else None
def union(I, f, this, args, ln):
    """the (separately decided) contract of BoundingBox::extend, for constant boxes"""
    a = args[0] if len(args) == 1 else None
    src = (lambda q: LV(a.root, a.path + (q,))) if a is not None else (lambda q: args[0] if q == 'start_coords' else args[1])
    if any(not isinstance(x, LV) for x in args) or this is None: return NotImplemented
    i = 0; new = []
    m = re.search(r'BoundingBox<[^,]*, *(\d+)', f['qn'])
    if not m: return NotImplemented
    for i in range(int(m.group(1))):
        k = ('m_data', num(i)); v = []
        for q in ('start_coords', 'end_coords'):
            l = src(q); x = const(I.read(LV(this.root, this.path + (q,) + k))); y = const(I.read(LV(l.root, l.path + k)))
            if x is None or y is None: return NotImplemented
            v.append(min(x, y) if q == 'start_coords' else max(x, y))
        new.append((k, v))
    for k, (b, e) in new:
        for q, x in (('start_coords', b), ('end_coords', e), ('shape', (e - b) % 2 ** 64)): I.write(LV(this.root, this.path + (q,) + k), num(x), ln)
    return T('undef', 'void')
class Tree:
    def __init__(s, ctx, P, d, seed=None, judge='nodes', n=1):
        s.ctx = ctx; s.P = P; s.d = d; s.judge = judge; s.trace = []; s.spec = {}; s.ok = True; s.k = 0
        r = random.Random(seed)
        def policy(f):
            if seed is not None and f['n'] in HEUR and ('RStarTree' in f['qs'] or 'BoundingBox' in f['qs']): return lambda I, *a, **k: num(r.randrange(40))
            if getattr(ctx, 'unions', False) and f['n'] == 'extend' and f['qs'].startswith('BoundingBox::'): return union
            return 'inline'
        m = s.m = Machine(ctx, P, policy=policy); m.budget = 40000000; m.limit = 60; m.I.unroll = 300; s.name = 'arbitrary heuristics %s' % seed if seed is not None else 'actual heuristics'
        s.c = m.call('make', d, n=n)
        if m.I.st.dead or m.vague or s.c is None: ctx.unk('history', 'the tree cannot be set up: ' + (m.why() if m.I.st.dead else str(m.I.unknown[-1:])[:200])); s.ok = False
    def what(s):
        out = []; 
        for t in s.trace:
            if out and out[-1][0] == t: out[-1][1] += 1
            else: out.append([t, 1])
        return '%d-D, %s: %s' % (s.d, s.name, ', '.join(t if n == 1 else '%s (%d times)' % (t, n) for t, n in out))
    def bad(s, rule, detail): s.ctx.violation(rule, s.m.last, s.what() + ': ' + detail); s.ok = False; return False
    def call(s, name, **k):
        """None if undecided or (then a violation) refused"""
        m = s.m
        try: r = m.call(name, s.d, c=s.c, **k)
        except interp.Budget: s.ctx.unk('history', s.what() + ': analysis budget'); s.ok = False; return None
        if m.I.st.dead: s.bad('the operation is carried out', '%s is refused: %s' % (name, m.why())); return None
        if m.vague: s.ctx.unk('history', s.what() + ': ' + str(m.I.unknown[-1:])[:160]); s.ok = False; return None
        return r if r is not None else TRUE
    # ---- operations
    def insert(s, b, e):
        s.trace.append('insert'); p = s.k; s.k += 1
        r = s.call('ins', b=list(b), e=list(e), p=p)
        if not s.ok: return
        s.spec[p] = (tuple(b), tuple(e)); s.ctx.equal('insertion returns the element', s.m.last, r, num(p), s.what())
        s.structure()
    def update(s, p, b, e):
        s.trace.append('update the box of an element'); s.call('upd', i=list(s.spec[p][0]), b=list(b), e=list(e))
        if s.ok: s.spec[p] = (tuple(b), tuple(e)); s.structure()
    def rebuild(s):
        s.trace.append('rebuild'); s.call('rebuild')
        if s.ok: s.structure()
    def clear(s):
        s.trace.append('clear'); s.call('clear')
        if s.ok: s.spec = {}; s.structure()
    # ---- the node structure
    def structure(s):
        if s.judge != 'nodes': return
        m = s.m; I = m.I; d = s.d; root = deref(s.c); ctx = s.ctx; w = s.what
        M = I.st.store.get(root.root, {}); plainly = all(isinstance(x, str) or const(x) is not None for q in M for x in q)
        def rd(*p):
            p = root.path + tuple(num(x) if isinstance(x, int) else x for x in p)
            return const(interp.raw_read(M, I.defval(root.root), p) if plainly else I.read(LV(root.root, p)))
        vec = lambda *p: [rd(*p, 'm_data', a) for a in range(d)]
        r = rd('m_root_slot'); cap = capacity(s.P)
        if r is None: ctx.unk('nodes', 'no root slot'); return
        if r == INVALID:
            ctx.require('every element is reachable from the root', m.last, not s.spec, '%s: the index has no root but must hold %d elements' % (w(), len(s.spec))); return
        seen = set(); ents = {}; todo = [(int(r), None)]
        while todo:
            n, lv = todo.pop(); N = ('m_nodes', 'm_data', n)
            l, k = rd(*N, 'level'), rd(*N, 'num_children'); b, e, sh = vec(*N, 'start_coords'), vec(*N, 'end_coords'), vec(*N, 'shape')
            if None in (l, k) or None in b + e + sh: ctx.unk('nodes', w() + ': node %s' % n); return
            if not ctx.require('every element is reachable from the root', m.last, n not in seen, '%s: node %d is reachable along two paths' % (w(), n)): s.ok = False; return
            seen.add(n)
            if lv is not None and not ctx.require('every element is reachable from the root', m.last, l == lv - 1, '%s: a node of level %s below one of level %s' % (w(), l, lv)): s.ok = False; return
            if not ctx.require('no node exceeds its capacity', m.last, k >= 1 and (cap is None or k <= cap), '%s: node with %s children (capacity %s)' % (w(), k, cap)): s.ok = False; return
            if not ctx.require('the extent of a box is end minus start', m.last, all(x == y - z for x, y, z in zip(sh, e, b)), '%s: node %s..%s with extent %s' % (w(), show(b), show(e), show(sh))): s.ok = False; return
            for i in range(int(k)):
                c = rd(*N, 'child_slots', i)
                if c is None: ctx.unk('nodes', w() + ': child slot'); return
                c = int(c); C = (('m_entries' if l == 0 else 'm_nodes'), 'm_data', c); cb, ce, cs = vec(*C, 'start_coords'), vec(*C, 'end_coords'), vec(*C, 'shape')
                if c == INVALID: s.bad('every element is reachable from the root', 'node with an invalid child'); return
                if None in cb + ce + cs: ctx.unk('nodes', w() + ': child %s' % c); return
                if not ctx.require('node boxes enclose what lies below', m.last, all(x <= y for x, y in zip(b, cb)) and all(x >= y for x, y in zip(e, ce)), '%s: the node box %s..%s (level %s) does not enclose the child %s..%s' % (w(), show(b), show(e), l, show(cb), show(ce))): s.ok = False; return
                if l != 0: todo.append((c, l)); continue
                if not ctx.require('the extent of a box is end minus start', m.last, all(x == y - z for x, y, z in zip(cs, ce, cb)), '%s: element %s..%s with extent %s' % (w(), show(cb), show(ce), show(cs))): s.ok = False; return
                p = rd(*C, 'payload')
                if p is None: ctx.unk('nodes', w() + ': payload'); return
                ents.setdefault(int(p), []).append((tuple(cb), tuple(ce)))
        for p, (b, e) in s.spec.items():
            g = ents.get(p, [])
            if not ctx.require('every element is reachable from the root', m.last, len(g) == 1, '%s: element %d (%s..%s) is reachable %d times' % (w(), p, show(b), show(e), len(g))): s.ok = False; return
            if not ctx.require('elements keep their boxes', m.last, g[0] == (b, e), '%s: element %d has the box %s..%s instead of %s..%s' % (w(), p, show(g[0][0]), show(g[0][1]), show(b), show(e))): s.ok = False; return
        if not ctx.require('every element is reachable from the root', m.last, len(ents) == len(s.spec), '%s: %d elements are reachable instead of %d' % (w(), len(ents), len(s.spec))): s.ok = False; return
    # ---- queries
    def outs(s, name, **k):
        m = s.m; lv = m.I.fresh('out'); l2 = m.I.fresh('arg'); m.I.write(l2, lv.sub(ZERO).ptr(), note=False)
        r = s.call(name, out=l2, **k)
        if not s.ok: return None, None
        return r, lambda i: const(m.I.read(lv.sub(num(i))))
    def point(s, p):
        if not s.ok: return
        R = 'a point query finds an element containing the point exactly if there is one'
        r, o = s.outs('at', i=list(p))
        if r is None: return
        want = [k for k, (b, e) in s.spec.items() if all(x <= y < z for x, y, z in zip(b, p, e))]
        if r not in (TRUE, FALSE): s.ctx.unk(R, s.what()); return
        if (r is TRUE) != bool(want): s.bad(R, 'query at %s: %s' % (show(p), 'no element found, but element %d contains the point' % want[0] if want else 'an element is found where none is')); return
        if not want: s.ctx.ok(R, ''); return
        g = o(0)
        if g is None: s.ctx.unk(R, s.what()); return
        if int(g) not in want: s.bad(R, 'query at %s finds element %d, which does not contain the point' % (show(p), g))
        else: s.ctx.ok(R, '')
    def members(s, r, o):
        if r is None or const(r) is None: return None
        l = [o(i) for i in range(int(const(r)))]
        return None if None in l else [int(x) for x in l]
    def region(s, b, e):
        if not s.ok: return
        R = 'a region query finds the overlapping elements and no others'
        l = s.members(*s.outs('list', b=list(b), e=list(e)))
        if not s.ok: return
        if l is None: s.ctx.unk(R, s.what()); return
        want = sorted(k for k, (c, f) in s.spec.items() if all(x < y for x, y in zip(c, e)) and all(x < y for x, y in zip(b, f)))
        if sorted(l) != want: s.bad(R, 'region %s..%s: finds %s instead of %s' % (show(b), show(e), sorted(l), want))
        else: s.ctx.ok(R, '')
    def everything(s):
        if not s.ok: return
        R = 'the list of all elements is complete'
        l = s.members(*s.outs('all'))
        if not s.ok: return
        if l is None: s.ctx.unk(R, s.what()); return
        if sorted(l) != sorted(s.spec): s.bad(R, 'lists %s instead of %s' % (sorted(l), sorted(s.spec)))
        else: s.ctx.ok(R, '')
        r = s.call('empty')
        if s.ok: s.ctx.require('an index is empty exactly if it has no elements', s.m.last, None if r not in (TRUE, FALSE) else (r is TRUE) == (not s.spec), s.what())
        for q, g, n in (('lo', min, 0), ('hi', max, 1)):
            v = s.call(q)
            if not s.ok: return
            for a in range(s.d): s.ctx.equal('the box of the index is that of its elements', s.m.last, proj(v, ('m_data', num(a))), num(g(x[n][a] for x in s.spec.values()) if s.spec else 0), s.what())
    def queries(s, r, n=6):
        pts = [tuple(r.choice([b[a], e[a] - 1, e[a], max(0, b[a] - 1)]) for a in range(s.d)) for b, e in r.sample(list(s.spec.values()), min(n, len(s.spec)))] + [tuple([9999] * s.d)]
        pts += [v[0] for v in r.sample(list(s.spec.values()), min(n, len(s.spec)))] + [tuple(x - 1 for x in v[1]) for v in r.sample(list(s.spec.values()), min(n, len(s.spec)))]
        for p in pts: s.point(p)
        for _ in range(n):
            if not s.spec: s.region([0] * s.d, [50] * s.d); break
            (b, e), (c, f) = r.choice(list(s.spec.values())), r.choice(list(s.spec.values()))
            lo = [min(x, y) for x, y in zip(b, c)]; hi = [max(x, y) for x, y in zip(e, f)]
            s.region(*r.choice([(lo, hi), (b, e), ([max(0, x - 1) for x in b], [x + 1 for x in e]), (e, [x + 1 for x in e]), ([x + 1 for x in b], [x + 2 for x in b]), ([0] * s.d, [9999] * s.d), ([0] * s.d, [y if i else 9999 for i, y in enumerate(hi)])]))
        s.everything()
def show(v): return '(%s)' % ','.join(str(int(x)) if x is not None else '?' for x in v)
def layouts(d, r):
    """disjoint boxes in several arrangements; every arrangement in several orders of insertion"""
    def grid(n, step, size):
        side = max(1, round(n ** (1.0 / d))); out = []
        for i in range(n):
            c = []; k = i
            for a in range(d): c.append(k % side if a < d - 1 else k); k //= side
            out.append((tuple(x * step for x in c), tuple(x * step + size for x in c)))
        return out
    def bars(n): return [(tuple([3 * i] + [0] * (d - 1)), tuple([3 * i + 3] + [40] * (d - 1))) for i in range(n)]
    def uneven(n):
        out = []; x = 0
        for i in range(n): w = 1 + (i * i) % 7; out.append((tuple([5] * (d - 1) + [x]), tuple([5 + 1 + i % 3] * (d - 1) + [x + w]))); x += w + i % 2
        return out
    for name, L in (('tiles', lambda n: grid(n, 4, 4)), ('tiles with gaps', lambda n: grid(n, 5, 3)), ('bars', bars), ('uneven', uneven)):
        for order in ('ascending', 'descending', 'shuffled'): yield name, order, L
def ordered(L, order, r):
    L = list(L)
    if order == 'descending': L.reverse()
    elif order == 'shuffled': r.shuffle(L)
    return L
