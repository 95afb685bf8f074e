"""Iteration spaces: the index loops of IteratorUtils (decided by P24) become one generic iteration with a symbolic index inside a known box;
stores below them are read as functions of the iteration variables and compared, axis by axis, with the region they must cover."""
from common import *
from p24 import nest
def coef(t, a):
    r = {}
    for m, c in tm.pd(t).items():
        if (a, 1) in m: r[tuple(x for x in m if x != (a, 1))] = c
    return tm.norm(tm._mk(r))
class Region:
    def __init__(s, label, lo, hi, size): s.label = label; s.lo = lo; s.hi = hi; s.size = size; s.c = []; s.e = []; s.loop = None
class Regions:
    """policy wrapper: Regions(ctx, base) is used as policy; .at maps Loop nodes to regions"""
    def __init__(s, ctx, base=None): s.ctx = ctx; s.base = base or (lambda f: 'inline'); s.by = {}; s.n = 0; s.all = []
    def __call__(s, f):
        if f['qs'] in ('IteratorUtils::index_loop_over_elements', 'IteratorUtils::index_loop_over_chunks'): return s.loop
        return s.base(f)
    def loop(s, I, f, this, args, ln):
        P = s.ctx.P; d = int(re.findall(r'(\d+)>', P.ty(f['params'][0]['t']))[-1]); ch = f['qs'].endswith('chunks')
        lo = [I.rv(LV_sub(I, args[0], i)) for i in range(d)]; hi = [I.rv(LV_sub(I, args[1], i)) for i in range(d)]; size = [I.rv(LV_sub(I, args[2], i)) for i in range(d)] if ch else None
        s.n += 1; r = Region(s.n, lo, hi, size)
        for i in range(d):
            one = ch and decide.same(size[i], sub(hi[i], lo[i])) is True
            r.c.append(lo[i] if one else T('sym', 'c', s.n, i))
            if ch: r.e.append(hi[i] if one else add(r.c[i], ONE) if const(size[i]) == 1 else T('sym', 'e', s.n, i))
        def cell(v):
            lv = I.fresh('tmp'); I.write(lv.sub('m_data'), T('undef', 'cell'), note=False)
            for i in range(d): I.write(lv.sub('m_data').sub(num(i)), v[i], note=False)
            return lv
        cond = T('truth', T('nondet', I.uid())); n0 = len(I.out)
        I.generic_loop(lambda: cond, lambda: I.apply(I.rv(args[-1]), [cell(r.c)] + ([cell(r.e)] if ch else []), ln), lambda: None, ln, False)
        for n in I.out[n0:]:
            if n.kind == 'loop': r.loop = n; s.by[id(n)] = r; break
        s.all.append(r)
        return T('undef', 'void')
    def vars(s, nodes, target):
        """iteration variables (variable, lo, hi) around a node and whether all enclosing loops are understood"""
        out = []; ok = True; facts = []
        for tag, L in nest(nodes, target) or ():
            if tag != 'loop': continue
            r = s.by.get(id(L))
            if r is not None:
                for i, c in enumerate(r.c):
                    if c.op == 'sym' and c.args[0] == 'c':
                        out.append((c, r.lo[i], r.hi[i])); facts += [tm.le0(sub(r.lo[i], c), True), tm.lt0(sub(c, r.hi[i]), True)]
                    else: facts.append(tm.lt0(sub(r.lo[i], r.hi[i]), True))
            elif L.trips is not None and not loop_leaves_early(L): out.append((L.K, ZERO, L.trips)); facts += [tm.le0(neg(L.K), True), tm.lt0(sub(L.K, L.trips), True)]
            else: ok = False
        return out, ok, facts
def LV_sub(I, a, i):
    if isinstance(a, LV): return LV(a.root, a.path + ('m_data', num(i)))
    return vec(I.rv(a), i)
class Layout:
    """flat index = off + sum index_i * strides_i + component; the stride of the last axis is the number of components"""
    def __init__(s, root, off, strides, vd): s.root = root; s.off = off; s.st = strides; s.vd = vd
    def fix(s, t): return tm.subst(t, {s.st[-1]: num(s.vd)}) if const(s.st[-1]) is None else t
    def split(s, t):
        t = sub(s.fix(t), s.off); D = []
        for i in range(len(s.st) - 1):
            D.append(coef(t, s.st[i])); t = sub(t, mul(D[i], s.st[i]))
        return D, t
def array(l, d, vd):
    """layout of the array object at location l (an LV) in the entry state"""
    f = lambda *p: T('ld', l.root, l.path + tuple(num(x) if isinstance(x, int) else x for x in p))
    return Layout(T('deref', f('m_data')), f('m_offset'), [f('m_strides', 'm_data', i) for i in range(d)], vd)
def dims(ctx, f):
    """(element type, dims, components) of the NDVecArray class a method belongs to"""
    m = re.match(r'NDVecArray<([\w ]+), (\d+)(?:UL)?, (\d+)(?:UL)?>', ctx.P.ty(f['clst'])) if f.get('clst') is not None else None
    return (m.group(1), int(m.group(2)), int(m.group(3))) if m else None
def covers(ctx, rule, f, I, R, x, dst, lo, hi, src=None, slo=None, perm=None, value=None, what='', pre=(), m=None, space=None):
    """store x writes, over its iteration space, exactly the elements [lo, hi) of dst; its value is the element of src at slo + (index - lo)
    (axes permuted by perm), or the given value. Returns the component it handles (int), 'all', or None."""
    d = len(lo); vd = dst.vd; pre = list(pre)
    if len(x.path) != 1 or not isinstance(x.path[0], T): ctx.unk(rule, repr(x)[:200]); return None
    vs, ok, facts = space or R.vars(I.nodes, x)
    if not ok: ctx.unk(rule, 'loop form around ' + tm.show(x.path[0])[:100]); return None
    fix0 = lambda t: (src.fix(dst.fix(t)) if src else dst.fix(t)); fix = (lambda t: fix0(tm.subst(t, m))) if m else fix0
    D, rest = dst.split(x.path[0]); rest = fix(rest); D = [fix(t) for t in D]
    vs = [(v, fix(a), fix(b)) for v, a, b in vs]; facts = [fix(c) for c in facts]; live = {v for v, a, b in vs}
    at = set().union(*[tm.atoms(t) for t in D + [rest]])
    asm = [tm.lt0(sub(a, b), True) for a, b in zip(lo, hi)] + pre
    if decide.has_opaque(rest) or any(decide.has_opaque(t) for t in D): ctx.unk(rule, tm.show(x.path[0])[:200]); return None
    used = set()
    def interval(t, unit, axis):
        """range of t/unit when t is unit * variable + start"""
        vv = [(v, a, b) for v, a, b in vs if v in tm.atoms(t)]
        if len(vv) == 0: return tm.norm(t), add(t, unit), None
        if len(vv) > 1: return None
        v, a, b = vv[0]
        if v in used: return None
        used.add(v); k = coef(t, v)
        if const(k) is None: return None
        t0 = sub(t, mul(k, v))
        if v in tm.atoms(t0): return None
        return (add(t0, mul(k, a)), add(t0, mul(k, b)), v) if const(k) == const(unit) else (k, v)
    okk = True
    for i in range(d - 1):
        r = interval(D[i], ONE, i); w = '%s, axis %d' % (what, i)
        if r is None: ctx.unk(rule, w); okk = False; continue
        if len(r) == 2:
            if const(r[0]) == 0: ctx.violation(rule, f, '%s: the index %s does not follow the loop' % (w, tm.show(D[i])), x.ln)
            else: ctx.violation(rule, f, '%s: the index %s skips or repeats elements' % (w, tm.show(D[i])), x.ln)
            okk = False; continue
        ctx.equal(rule, f, r[0], fix(lo[i]), w + ': first element written', ln=x.ln, assume=asm); ctx.equal(rule, f, r[1], fix(hi[i]), w + ': end of the elements written', ln=x.ln, assume=asm)
    # last axis: components and elements share one run
    w = '%s, axis %d' % (what, d - 1); comp = None; rl = [(v, a, b, const(coef(rest, v))) for v, a, b in vs if v in tm.atoms(rest)]
    run = [q for q in rl if q[3] == 1]; el = [q for q in rl if q[3] == vd and q not in run]
    if any(q[3] is None for q in rl) or len(run) > 1 or len(el) > 1 or len(rl) != len(run) + len(el):
        bad = [q for q in rl if q[3] is not None and q[3] not in (1, vd)]
        if len(rl) == 1 and bad: ctx.violation(rule, f, '%s: consecutive elements are %s apart, must be %d' % (w, bad[0][3], vd), x.ln)
        else: ctx.unk(rule, w + ': ' + tm.show(rest)[:150])
        return None
    base = rest
    for q in rl: base = sub(base, mul(num(q[3]), q[0])); used.add(q[0])
    L, H = fix(mul(num(vd), lo[-1])), fix(mul(num(vd), hi[-1]))
    if run and not el:      # one run over elements and components
        ctx.equal(rule, f, add(base, run[0][1]), L, w + ': start of the run', ln=x.ln, assume=asm); ctx.equal(rule, f, add(base, run[0][2]), H, w + ': end of the run', ln=x.ln, assume=asm); comp = 'all'
    elif el:
        k = sub(add(base, mul(num(vd), el[0][1])), L)
        if run:
            ctx.equal(rule, f, k, ZERO, w + ': first element', ln=x.ln, assume=asm); ctx.equal(rule, f, run[0][1], ZERO, w + ': first component', ln=x.ln); ctx.equal(rule, f, run[0][2], num(vd), w + ': number of components', ln=x.ln); comp = 'all'; k = run[0][0]
        else:
            comp = const(k)
            if comp is None or not 0 <= comp < vd: ctx.violation(rule, f, '%s: first element written is %s, must be %s' % (w, tm.show(div(add(L, k), num(vd))), tm.show(lo[-1])), x.ln) if not decide.has_opaque(k) else ctx.unk(rule, w); return None
        ctx.equal(rule, f, sub(add(base, mul(num(vd), el[0][2])), k if not run else ZERO), H, w + ': end of the elements written', ln=x.ln, assume=asm)
    else:
        k = const(sub(base, L))
        if k is None or not 0 <= k < vd:
            ctx.equal(rule, f, base, L, w + ': element written', ln=x.ln, assume=asm); return None
        comp = int(k); ctx.equal(rule, f, add(lo[-1], ONE), hi[-1], w + ': only one element is written', ln=x.ln, assume=asm)
    # iteration variables that do not move the destination repeat the same store (harmless); guards must hold inside the box
    known = {tm.norm(c) for c in facts}
    own = [fix(c) for c in x.pc if not decide.has_opaque(c) and any(v in tm.atoms(c) for v in live) and tm.norm(c) not in known]
    if own: ctx.require(rule, f, decide.holds(andb(*own), facts + asm), '%s: written only if %s' % (what, tm.show(andb(*own))[:200]), x.ln)
    gd = [c for c in (fix(c) for c in x.pc) if not decide.has_opaque(c) and not any(v in tm.atoms(c) for v in live) and tm.norm(c) not in known]
    if gd: ctx.require(rule, f, decide.holds(andb(*gd), asm), '%s: done only if %s' % (what, tm.show(andb(*gd))[:200]), x.ln)
    if not okk: return comp
    # value
    val = fix(x.val) if x.val is not None else None
    if src is not None:
        ld = [val] if val.op == 'ld' and val.args[0] is src.root and len(val.args[1]) == 1 else []
        if not ld:
            at = [a for a in tm.atoms(val) if a.op == 'ld' and a.args[0] is src.root]
            if not decide.has_opaque(val): ctx.violation(rule + ': values', f, '%s: stores %s, must be an element of the source' % (what, tm.show(val)[:200]), x.ln)
            else: ctx.unk(rule + ': values', tm.show(val)[:200])
            return comp
        u = fix(val.args[1][0]); want = src.off
        if perm is None:
            for i in range(d - 1): want = add(want, mul(add(D[i], sub(slo[i], lo[i])), src.st[i]))
            want = add(want, add(rest, mul(num(vd), sub(slo[-1], lo[-1]))))
        else:
            if comp == 'all' and vd > 1 and perm[-1] != d - 1: ctx.unk(rule + ': values', what); return comp
            k = ZERO if comp == 'all' else num(comp); last = div(sub(rest, k), num(vd)); DD = D + [last]
            for i in range(d): want = add(want, mul(DD[perm[i]], src.fix(src.st[i]) if i < d - 1 else num(vd)))
            want = add(want, k)
        ctx.equal(rule + ': values', f, u, fix(want), what, ln=x.ln, assume=asm + facts)
    if value is not None: ctx.equal(rule + ': values', f, val, value, what, ln=x.ln)
    return comp
def all_components(ctx, rule, f, got, vd, ln=None):
    if 'all' in got or set(range(vd)) <= {g for g in got if g is not None}: ctx.ok(rule, 'all components')
    elif None in got or not got: ctx.unk(rule, 'components')
    else: ctx.violation(rule, f, 'only components %s of %d are written' % (sorted(got), vd), ln)

class Access:
    """an element access treated like a store: where it is and when it happens"""
    def __init__(s, root, idx, pc, ln, val=None): s.root = root; s.path = (idx,); s.pc = pc; s.ln = ln; s.val = val
