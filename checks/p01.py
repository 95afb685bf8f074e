"""Round trips in the abstract: a value with symbolic content is written to an abstract file and read back by the real code; the
result must be the same symbols, the file position must be the number of bytes written, and every multi-byte number in the file
must be the byte-swapped symbol. Container lengths (and internal block sizes) are enumerated, contents are unconstrained."""
from common import *
MIN_OBLIGATIONS = 150
FILE = LV(T('arg', 0), ('#file',))
VEC = ('m_data',)
def idx(n): return [(num(i),) for i in range(n)]
def pre(p, ls): return [tuple(p) + l for l in ls]
def leaves(t, n):
    """(paths of the scalar leaves, paths of the lengths) of a value of type t; dynamic containers have n elements"""
    t = unq(t.replace('const ', '').rstrip('& ').strip())
    import re
    m = re.match(r'std::vector<(float|double|unsigned long)>', t)
    if m or re.match(r'std::basic_string<char>', t): return idx(n), [('#size',)]
    m = re.match(r'std::array<[^,]*, (\d+)>', t)
    if m: return idx(int(m.group(1))), []
    if re.match(r'R[ZT]*CoordVector|RZTVector|RZTCoordVector', t): return pre(VEC, idx(3)), []
    m = re.match(r'Vector<[^,]*, (\d+)>', t)
    if m: return pre(VEC, idx(int(m.group(1)))), []
    if t in ('unsigned int', 'unsigned long', 'float', 'double'): return [()], []
    if t.startswith('stor::NDVecArrayStreamerMetadata'): return pre(('ser_chunk_shape',) + VEC, idx(3)) + pre(('array_shape',) + VEC, idx(3)) + [('access_mode',)], []
    if t.startswith('stor::NDVecArrayStreamerChunkMetadata'): return [('ser_mode',), ('chunk_size',)], []
    return None, None
CHUNK = [('chunk_type',), ('chunk_id',), ('overlap',), ('start_pos',)] + [p for f in ('shape', 'start_ind', 'end_ind', 'loc_ind_offset') for p in pre((f,) + VEC, idx(3))]
GREEN = [p for f, k in (('start_pos_rzt', 3), ('end_pos_rzt', 3), ('sample_interval_rzt', 3), ('start_pos_rz', 2), ('end_pos_rz', 2), ('sample_interval_rz', 2)) for p in pre((f,) + VEC, idx(k))]
def swapped(v, nb):
    """is v a number in network byte order? True/False/None"""
    if v.op == 'bswap%d' % (8 * nb): return True
    c = const(v)
    if c is not None:
        if c == 0: return True
        c = int(c)
        return int.from_bytes(c.to_bytes(nb, 'little'), 'big') < 2 ** 16 if 0 < c < 2 ** (8 * nb) and not c < 2 ** 16 else (False if 0 < c < 2 ** 16 else None)
    return False if v.op in ('bits', 'ld', 'narrow', 'arg') or v.op.startswith('bswap') else None
def narrowed(t):
    """identities are 32-bit numbers (see DESIGN): dropping the upper half of one keeps it"""
    m = {}
    def go(x, seen):
        if not isinstance(x, T) or x in seen: return
        seen.add(x)
        for a in x.args:
            for y in (a if isinstance(a, tuple) else (a,)): go(y, seen)
        if x.op == 'narrow' and isinstance(x.args[-1], T): m[x] = x.args[-1]
    go(t, set())
    for k in sorted(m, key=lambda x: x.uid): t = tm.subst(t, {k: m[k]})
    return t
def clean(ctx, f, I, what):
    if I.read(FILE).op != 'file': ctx.unk('values survive', '%s: %s' % (what, tm.show(I.read(FILE))[:80])); return False
    if I.st.dead:
        ctx.violation('what was written is accepted when read', f, what + ': reading refuses it'); return False
    return True
def file_facts(ctx, f, I, what, root=FILE):
    ft = I.read(root)
    early = events(I.nodes, 'read-past-end')
    if early: ctx.violation('reading consumes exactly what writing produced', f, what + ': reads beyond the end of what was written', early[0].ln); return None
    if ft.op != 'file': ctx.unk('reading consumes exactly what writing produced', '%s: %s' % (what, tm.show(ft)[:80])); return None
    ent, pos = ft.args[0], ft.args[1]
    es = [ent[i:i + 3] for i in range(0, len(ent), 3)] if ent and not isinstance(ent[0], tuple) else list(ent)
    total = sum(int(e[0]) for e in es)
    p = const(pos) if isinstance(pos, T) else pos
    if p is None: ctx.unk('reading consumes exactly what writing produced', what)
    elif int(p) == total: ctx.ok('reading consumes exactly what writing produced', what)
    else: ctx.violation('reading consumes exactly what writing produced', f, '%s: %d bytes are written, the reader stops at %d' % (what, total, p))
    for nb, ty, v in es:
        if int(nb) == 1: continue
        r = swapped(v, int(nb))
        if r is False: ctx.violation('numbers are stored in network byte order', f, '%s: stores %s' % (what, tm.show(v)[:120]))
        elif r is None: ctx.unk('numbers are stored in network byte order', what + ': ' + tm.show(v)[:80])
        else: ctx.ok('numbers are stored in network byte order', what)
    return es
def check(ctx):
    P = ctx.program('probe_ser.cc'); done = 0
    N = range(0, 7) if ctx.tier == 'quick' else range(0, 13)
    def go(f, argv={}, setup=lambda I: None):
        I = Interp(P); I.write(FILE, T('file', (), 0), note=False); setup(I)
        return ctx.run(f, I=I, argvals=argv)
    def compare(f, I, what, ls, szs, n, base=()):
        if not clean(ctx, f, I, what): return
        for s in szs: ctx.equal('lengths survive', f, proj(I.rvret, tuple(base) + s), num(n), what)
        for l in ls: ctx.equal('values survive', f, narrowed(proj(I.rvret, tuple(base) + l)), argc(1, *l), '%s: element %s' % (what, '.'.join(x if isinstance(x, str) else tm.show(x) for x in l) or 'value'))
    for name in ('round', 'round_by'):
        for f in P.find('probe::' + name):
            t = P.ty(f['params'][1]['t']); dyn = 'std::vector<' in t or 'basic_string' in t
            if leaves(t, 1)[0] is None: continue
            done += 1
            for n in (N if dyn else (0,)):
                ls, szs = leaves(t, n); what = '%s%s' % (t.replace('const ', '').rstrip(' &'), ', %d elements' % n if dyn else '')
                I = go(f, setup=(lambda I: I.write(LV(T('arg', 1), ('#size',)), num(n), note=False)) if dyn else (lambda I: None))
                compare(f, I, what, ls, szs, n); file_facts(ctx, f, I, what)
    # internal blocks of long vectors
    for f in P.find('probe::round_blocks'):
        for n in N:
            for b1 in (1, 2, 3, 4):
                for b2 in (1, 2, 3):
                    what = 'vector of %d elements written in blocks of %d and read in blocks of %d' % (n, b1, b2)
                    I = go(f, {2: num(b1), 3: num(b2)}, lambda I: I.write(LV(T('arg', 1), ('#size',)), num(n), note=False))
                    ls, szs = leaves('std::vector<float>', n); compare(f, I, what, ls, szs, n); file_facts(ctx, f, I, what)
    # maps
    for f in P.find('probe::round'):
        t = P.ty(f['params'][1]['t'])
        if 'std::map<unsigned long, float>' not in t: continue
        for n in range(0, 5):
            def setup(I):
                A = T('arg', 1); I.write(LV(A, ('#size',)), num(n), note=False)
                for i in range(n):
                    k = num(100 + 7 * i); I.write(LV(A, ('#keys', num(i))), k, note=False); I.write(LV(A, (k,)), T('sym', 'mapped', num(i)), note=False); I.write(LV(A, ('#has', k)), TRUE, note=False)
            I = go(f, {}, setup); what = 'map with %d entries' % n; done += 1
            if not clean(ctx, f, I, what): continue
            ctx.equal('lengths survive', f, proj(I.rvret, ('#size',)), num(n), what)
            for i in range(n):
                k = num(100 + 7 * i)
                ctx.equal('values survive', f, proj(I.rvret, ('#has', k)), TRUE, what + ': key %d present' % i); ctx.equal('values survive', f, proj(I.rvret, (k,)), T('sym', 'mapped', num(i)), what + ': value %d' % i)
            file_facts(ctx, f, I, what)
    # vectors of strings and of chunk descriptions
    for f in P.find('probe::round'):
        t = P.ty(f['params'][1]['t'])
        if 'std::vector<std::basic_string' in t or 'std::vector<std::__cxx11' in t:
            for lens in ((), (0,), (2,), (1, 0, 2)):
                def setup(I):
                    A = T('arg', 1); I.write(LV(A, ('#size',)), num(len(lens)), note=False)
                    for i, k in enumerate(lens): I.write(LV(A, (num(i), '#size')), num(k), note=False)
                I = go(f, {}, setup); what = 'strings of lengths %s' % (lens,); done += 1
                if not clean(ctx, f, I, what): continue
                ctx.equal('lengths survive', f, proj(I.rvret, ('#size',)), num(len(lens)), what)
                for i, k in enumerate(lens):
                    ctx.equal('lengths survive', f, proj(I.rvret, (num(i), '#size')), num(k), what)
                    for j in range(k): ctx.equal('values survive', f, proj(I.rvret, (num(i), num(j))), argc(1, i, j), what + ': character %d of string %d' % (j, i))
                file_facts(ctx, f, I, what)
        if 'std::vector<ChunkMetadata' in t:
            for lens in ((), (3,), (0, 2)):
                def setup(I):
                    A = T('arg', 1); I.write(LV(A, ('#size',)), num(len(lens)), note=False)
                    for i, k in enumerate(lens): I.write(LV(A, (num(i), 'filepath', '#size')), num(k), note=False)
                I = go(f, {}, setup); what = '%d chunk descriptions' % len(lens); done += 1
                if not clean(ctx, f, I, what): continue
                ctx.equal('lengths survive', f, proj(I.rvret, ('#size',)), num(len(lens)), what)
                for i, k in enumerate(lens):
                    for p in CHUNK:
                        if p[0] in ('end_ind', 'loc_ind_offset', 'start_pos'): continue   # derived; decided for single descriptions below
                        ctx.equal('values survive', f, narrowed(proj(I.rvret, (num(i),) + p)), argc(1, i, *p), '%s: %s of entry %d' % (what, p[0], i))
                    for j in range(k): ctx.equal('values survive', f, proj(I.rvret, (num(i), 'filepath', num(j))), argc(1, i, 'filepath', j), '%s: character %d of the path of entry %d' % (what, j, i))
                file_facts(ctx, f, I, what)
    # descriptions with derived fields: the description read back equals the one made directly
    for k in range(0, 5):
        fr, fm = ctx.fn('probe::round_chunk'), ctx.fn('probe::make_chunk')
        path = lambda i: (lambda I: I.write(LV(T('arg', i), ('#size',)), num(k), note=False))
        I = go(fr, {}, path(2)); done += 1; what = 'chunk description with a path of %d characters' % k
        J = Interp(P); path(1)(J); J = ctx.run(fm, I=J)
        if not clean(ctx, fr, I, what): continue
        for p in CHUNK: ctx.equal('values survive', fr, narrowed(proj(I.rvret, p)), shifted(proj(J.rvret, p), 1), '%s: %s' % (what, p[0]))
        for j in range(k): ctx.equal('values survive', fr, proj(I.rvret, ('filepath', num(j))), argc(2, j), '%s: character %d of the path' % (what, j))
        ctx.equal('lengths survive', fr, proj(I.rvret, ('filepath', '#size')), num(k), what)
        file_facts(ctx, fr, I, what)
    fr, fm = ctx.fn('probe::round_green'), ctx.fn('probe::make_green')
    I = go(fr); J = ctx.run(fm); done += 1; what = "Green's-function description"
    if clean(ctx, fr, I, what):
        for p in GREEN: ctx.equal('values survive', fr, proj(I.rvret, p), shifted(proj(J.rvret, p), 1), '%s: %s' % (what, p[0]))
        file_facts(ctx, fr, I, what)
    ctx.atleast('serialisable types', done, 30)
def shifted(t, k):
    """t with every parameter number raised by k"""
    m = {T('arg', i): T('sym', 'argtmp', i) for i in range(8)}
    t = tm.subst(t, m)
    return tm.subst(t, {v: T('arg', i + k) for i, v in enumerate(m.values())})
