"""Inductive conditions on the recurrences of the index loops (dimensions 1 to 4, signed and unsigned): the index handed to the
worker starts at the region start, is followed by its successor (or by the end of the previous piece), the loop continues
exactly while it is below the region end, and the nest visits every combination; the worker call is not otherwise guarded."""
from common import *
MIN_OBLIGATIONS = 60
TECHNIQUE = 'loop-recurrence analysis (inductive conditions per axis) on the value graph'
def nest(nodes, target, acc=()):
    for n in nodes:
        if n is target: return acc
        kids = []
        if n.kind == 'if': kids = [(n.a, ('if', n.cond)), (n.b, ('if', notb(n.cond)))]
        elif n.kind == 'loop': kids = [(n.body, ('loop', n))]
        elif n.kind in ('call', 'block'): kids = [(n.body, None)]
        for b, tag in kids:
            r = nest(b, target, acc + ((tag,) if tag else ()))
            if r is not None: return r
    return None
def lvalue_of(I, m, loop):
    for key, (init, nxt, mu) in loop.carried_keys.items():
        if mu is m: return init, nxt
    return None
def analyse(ctx, f, d, chunks):
    P = ctx.P; I = ctx.run(f); evs = [e for e in events(I.nodes) if e.name == 'callback']
    nm = '%s, %d dimension%s' % (f['qs'].split('::')[-1], d, 's' if d > 1 else '')
    if not evs: ctx.violation('worker is called', f, nm + ': no path calls the worker'); return
    if len(evs) > 1: ctx.unk('one worker call site', nm); return
    e = evs[0]; B = [argc(0, 'm_data', i) for i in range(d)]; E = [argc(1, 'm_data', i) for i in range(d)]; S = [argc(2, 'm_data', i) for i in range(d)] if chunks else None
    path = nest(I.nodes, e); loops = [x[1] for x in path if x[0] == 'loop']; gates = [x[1] for x in path if x[0] == 'if']
    pos = [tm.le0(sub(ONE, s_), True) for s_ in S] if chunks else []
    rng = [tm.lt0(sub(b, en), True) for b, en in zip(B, E)]
    # conditions whose failure breaks out of a loop of the nest belong to that loop's condition
    extra = {}
    for l in loops:
        for x in walk_exits(l.body):
            if x.what == 'break' and x.label == l.label and x.pc:
                c = notb(x.pc[-1])
                if c in e.pc and any(a is l.K or (a.op == 'mu' and a.args[0] == l.depth) for a in tm.atoms(c)): extra.setdefault(l, []).append(c)
    absorbed = {c for l in loops for c in ((l.cond,) + (l.cond.args if l.cond.op == 'and' else ())) } | {c for v in extra.values() for c in v}
    facts = [c for c in e.pc if c not in absorbed]
    reached = {}
    used = []
    for i in range(d):
        c = vec(e.args[0], i) if d > 1 or True else None
        drv = {l for l in loops for a in tm.atoms(c) if (a is l.K) or (a.op == 'mu' and a.args[0] == l.depth)}
        what = '%s, axis %d' % (nm, i)
        if not drv:
            if decide.has_opaque(c): ctx.unk('axis is iterated', what)
            else: ctx.violation('axis is iterated', f, '%s: the index %s does not change' % (what, tm.show(c)), e.ln)
            continue
        if len(drv) > 1 or list(drv)[0] in used: ctx.unk('axis is iterated', what); continue
        L = list(drv)[0]; used.append(L); m = [a for a in tm.atoms(c) if a.op == 'mu']
        cond = andb(L.cond, *extra.get(L, []))
        if getattr(L, 'post', False): ctx.unk('loop form', what); continue
        if chunks:
            ce = vec(e.args[1], i)
            kk = T('sym', 'k%d' % i); rc = {m[0]: add(B[i], mul(kk, S[i]))} if len(m) == 1 and c is m[0] else {}    # piece starts that can occur
            inrange = [tm.subst(t, rc) for t in (tm.lt0(sub(c, E[i]), True), tm.le0(sub(B[i], c), True))] + [tm.le0(neg(kk), True)]
            ctx.equal('piece end', f, tm.subst(ce, rc), tm.subst(minmax('min', add(c, S[i]), E[i]), rc), what, assume=inrange + pos, ln=e.ln)
        if not m:   # affine in K
            b0 = tm.subst(c, {L.K: ZERO}); b1 = tm.subst(c, {L.K: add(L.K, ONE)})
            if const(sub(b1, c)) == -1 and not chunks:   # descending
                ctx.equal('starts at the last index', f, b0, sub(E[i], ONE), what, ln=e.ln); 
            else:
                ctx.equal('starts at the region start', f, b0, B[i], what, ln=e.ln)
                ctx.equal('successor', f, b1, add(c, S[i] if chunks else ONE), what, ln=e.ln)
            want = tm.lt0(sub(add(B[i], mul(L.K, S[i] if chunks else ONE)), E[i]), True)
            ctx.equal('continues exactly while below the region end', f, cond, want, what, assume=[tm.le0(neg(L.K), True)] + pos, ln=L.ln)
        else:
            if len(m) > 1 or c is not m[0]: ctx.unk('recurrence', what); continue
            r = lvalue_of(I, m[0], L)
            if r is None: ctx.unk('recurrence', what); continue
            init, nxt = r
            ctx.equal('starts at the region start', f, init, B[i], what, ln=e.ln)
            asm = [tm.lt0(sub(c, E[i]), True), tm.le0(sub(B[i], c), True)] + pos
            reached[m[0]] = add(B[i], mul(T('sym', 'k%d' % i), S[i] if chunks else ONE))
            sm = lambda t: tm.subst(t, {m[0]: T('sym', 'cur')})
            if chunks: 
                # the next piece starts where this one ends
                ctx.equal('successor', f, sm(nxt), sm(minmax('min', add(c, S[i]), E[i])), what, assume=[sm(a) for a in asm], ln=e.ln)
            else: ctx.equal('successor', f, sm(nxt), sm(add(c, ONE)), what, ln=e.ln)
            ctx.equal('continues exactly while below the region end', f, sm(cond), sm(tm.lt0(sub(c, E[i]), True)), what, ln=L.ln)
    if facts:
        ci = [tm.subst(vec(e.args[0], i), reached) for i in range(d)]
        v = decide.holds(tm.subst(andb(*facts), reached), [tm.lt0(sub(c, en), True) for c, en in zip(ci, E)] + pos + [tm.le0(neg(q.K), True) for q in loops]); ctx.require('worker call not otherwise guarded', f, v, '%s: called only if %s' % (nm, tm.show(andb(*facts))), e.ln)
    order = {id(x): k for k, x in enumerate(walk(I.nodes))}
    # an exit out of the nest that is possible while no axis is at its last element ends the iteration too early
    for l in loops:
        inner = {n.label for n in walk(l.body) if n.kind in ('call', 'loop', 'block')}
        for x in walk_exits(l.body):
            if x.pc and notb(x.pc[-1]) in absorbed: continue
            if x.what not in ('return', 'break', 'continue') or x.label in inner or (x.what == 'continue' and x.label == l.label and x.ln > e.ln): continue
            ci = [tm.subst(vec(e.args[0], i), reached) for i in range(d)]; st = S or [ONE] * d
            asm = [tm.le0(sub(b, c), True) for b, c in zip(B, ci)] + [tm.lt0(sub(add(c, s_) if order[id(x)] > order[id(e)] else c, en), True) for c, s_, en in zip(ci, st, E)] + pos + [tm.le0(neg(q.K), True) for q in loops]
            px = tm.subst(andb(*x.pc), reached); asm += [tm.le0(neg(T('sym', 'k%d' % i)), True) for i in range(d)]
            v = decide.same(px, FALSE, assume=asm, hi=400, n=400)
            if v is False: ctx.violation('no early exit', f, '%s: leaves the loops when %s, although indices remain' % (nm, tm.show(andb(*x.pc))[:200]), x.ln)
            elif v is None: ctx.unk('no early exit', nm)
def check(ctx):
    P = ctx.program(); n = 0
    for q, ch in (('IteratorUtils::index_loop_over_elements', False), ('IteratorUtils::index_loop_over_chunks', True)):
        seen = set()
        for f in ctx.fn(q, all=True):
            ts = [P.ty(p['t']) for p in f['params']]; m = re.match(r'(?:const )?Vector<(.+), (\d+)>', ts[0])
            if not m or (m.group(1), m.group(2)) in seen: continue
            seen.add((m.group(1), m.group(2))); n += 1
            analyse(ctx, f, int(m.group(2)), ch)
    ctx.atleast('index loops', n, 8)
    for f in ctx.fn('IteratorUtils::empty_range', all=True):
        d = int(re.findall(r'(\d+)>', P.ty(f['params'][0]['t']))[0]); I = ctx.run(f)
        ctx.equal('empty region test', f, I.rvret, orb(*[tm.le0(sub(argc(1, 'm_data', i), argc(0, 'm_data', i)), True) for i in range(d)]), '%d dimensions' % d, hi=3)
    # whole-array iteration is the same loop over [0, shape)
    for q in ('IteratorUtils::index_loop_over_array_elements', 'IteratorUtils::index_loop_over_array_chunks'):
        for f in P.by.get(q, []):
            got = []
            def pol(h):
                if h['qs'] in ('IteratorUtils::index_loop_over_elements', 'IteratorUtils::index_loop_over_chunks'):
                    def cb(I, h, this, args, ln): got.append([I.rv(a) for a in args]); return T('undef', 'void')
                    return cb
                return 'inline'
            I = ctx.run(f, pol)
            if len(got) != 1: ctx.unk('whole array', q); continue
            d = int(re.findall(r'(\d+)(?:UL)?, \d+>', P.ty(f['params'][0]['t']))[0])
            for i in range(d):
                ctx.equal('whole array', f, vec(got[0][0], i), ZERO, 'start of axis %d' % i); ctx.equal('whole array', f, vec(got[0][1], i), argc(0, 'm_shape', 'm_data', i), 'end of axis %d' % i)
                if 'chunks' in q: ctx.equal('whole array', f, vec(got[0][2], i), argc(1, 'm_data', i), 'piece size of axis %d' % i)
