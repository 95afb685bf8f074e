"""Abstract file system (opt-in: I.fs = True). Paths are canonical terms, a file is either absent, a directory, or a file term
file(entries, position) of which the entries carry the bytes, type and value written; every effect is logged in I.fslog."""
import re
import terms as tm
from terms import T, num, ZERO, ONE, TRUE, FALSE, const, eqt, notb, ite
CWD = '/cwd'
FS = T('fs')
def canon(p):
    if p.op == 'abs_path': return absolute(p.args[0])
    if p.op == 'path/':
        a, b = canon(p.args[0]), canon(p.args[1])
        if b.op == 'str' and b.args[0] == '': return a
        if b.op == 'str' and b.args[0].startswith('/'): return b
        if a.op == 'str' and a.args[0] == '': return b
        if a.op == 'str' and b.op == 'str': return T('str', a.args[0].rstrip('/') + '/' + b.args[0])
        if b.op == 'path/': return T('path/', canon(T('path/', a, b.args[0])), b.args[1])
        return T('path/', a, b)
    if p.op in ('path+', 'str+'):
        a, b = canon(p.args[0]), canon(p.args[1])
        if a.op == 'str' and b.op == 'str': return T('str', a.args[0] + b.args[0])
        if b.op == 'str' and b.args[0] == '': return a
        if a.op == 'path/': return T('path/', a.args[0], canon(T('path+', a.args[1], b)))
        if a.op == 'path+' and a.args[1].op == 'str' and b.op == 'str': return T('path+', a.args[0], T('str', a.args[1].args[0] + b.args[0]))
        return T('path+', a, b)
    if p.op in ('cstr', 'strof') and p.args[0].op == 'str': return p.args[0]
    if p.op == 'strof' and const(p.args[1]) is not None and p.args[0].op in ('obj', 'str'): p = T('obj', p.args[0], ((('#size',), p.args[1]),))
    if p.op == 'obj':
        from interp import proj
        n = const(proj(p, ('#size',)))
        if n is not None and n < 300:
            cs = [const(proj(p, (num(i),))) for i in range(int(n))]
            if all(c is not None and 0 < c < 128 for c in cs): return T('str', ''.join(chr(int(c)) for c in cs))
    if p.op == 'mk' and ('string' in str(p.args[0]) or 'path' in str(p.args[0])) and len(p.args) > 1 and isinstance(p.args[1], T): return canon(p.args[1])
    if p.op in ('p:filename', 'p:parent_path', 'p:extension', 'p:stem'): return part(p.op[2:], p.args[0])
    return p
def absolute(p):
    p = canon(p)
    if p.op == 'str': return p if p.args[0].startswith('/') else T('str', (CWD + '/' + p.args[0]).rstrip('/'))
    if p.op == 'path/': return T('path/', absolute(p.args[0]), p.args[1])
    return T('path/', T('str', CWD), p)
def part(what, p):
    p = canon(p)
    if p.op == 'str':
        d, _, n = p.args[0].rpartition('/'); st, dot, ex = n.rpartition('.')
        if not dot or not st: st, ex = n, ''
        else: ex = '.' + ex
        return T('str', {'filename': n, 'parent_path': d, 'extension': ex, 'stem': st}[what])
    if p.op == 'path/': return p.args[0] if what == 'parent_path' else part(what, p.args[1])
    if what == 'filename': return p
    if what == 'parent_path': return T('str', '')
    if p.op == 'path+' and p.args[1].op == 'str' and re.match(r'\.[^./]+$', p.args[1].args[0]): return p.args[1] if what == 'extension' else p.args[0]
    if p.op in ('cstr', 'strof', 'uuidstr'): return T('str', '') if what == 'extension' else p
    return T('p:' + what, p)
def concrete(p):
    p = canon(p)
    if p.op in ('path/', 'path+', 'str+', 'abs_path') or p.op.startswith('p:'): return all(concrete(a) for a in p.args if isinstance(a, T))
    return p.op in ('str', 'uuidstr') or p.op == 'sym' and p.args[0] == 'name'
def key(p):
    p = absolute(p); return p.args[0] if p.op == 'str' else tm.show(p)
class FSModel:
    fs = False; fslog = None; fspaths = None; fsfail = ()
    def fs_lv(s, p):
        from interp import LV
        p = absolute(p); k = key(p)
        if s.fspaths is None: s.fspaths = {}
        s.fspaths.setdefault(k, p); return LV(FS, (k,)), k
    def fs_get(s, p):
        lv, k = s.fs_lv(p); m = s.st.store.get(FS)
        return m[(k,)] if m and (k,) in m else T('absent')
    def fs_put(s, p, v): lv, k = s.fs_lv(p); s.write(lv, v, note=False)
    def fs_note(s, what, *ps):
        if s.fslog is None: s.fslog = []
        e = (what,) + tuple(key(p) if isinstance(p, T) else p for p in ps)
        if what != 'write' or not s.fslog or s.fslog[-1] != e: s.fslog.append(e)
    def fs_throw(s, why, ln):
        from interp import Exit
        s.out.append(Exit('throw', None, T('str', 'filesystem_error: ' + why), ln, s.curfn(), s.st.pc)); s.thrown.append(s.st.copy()); s.st.dead = True
        return T('undef', 'throw')
    def fs_children(s, p):
        k = key(p); m = s.st.store.get(FS, {}); out = []
        for q, v in m.items():
            if len(q) == 1 and v.op != 'absent' and key(part('parent_path', s.fspaths[q[0]])) == k and q[0] != k: out.append(s.fspaths[q[0]])
        return out
    def fs_below(s, p):
        r = []
        for c in s.fs_children(p): r += [c] + s.fs_below(c)
        return r
    def fs_call(s, base, args, ln, ec=None):
        """std::filesystem free functions; None when not handled. ec: where the variants that do not throw put their error"""
        if ec is not None: args = args[:-1]; s.write(ec.sub('#ec'), ZERO, note=False)
        def refuse(why):
            if ec is None: return s.fs_throw(why, ln)
            s.write(ec.sub('#ec'), ONE, note=False); return FALSE
        V = lambda i: s.rv(args[i])
        if base in ('absolute', 'canonical', 'weakly_canonical'): return absolute(V(0))
        if base == 'temp_directory_path': return T('str', '/tmp')
        if base in ('exists', 'is_directory', 'is_regular_file', 'file_size', 'remove', 'remove_all', 'rename', 'copy', 'copy_file', 'create_directory', 'create_directories', 'is_empty') and concrete(V(0)):
            p = V(0); v = s.fs_get(p); s.ev('fs:' + base, None, [s.rv(a) for a in args], None, ln)
            if base == 'exists': return tm.boolt(v.op != 'absent')
            if base == 'is_directory': return tm.boolt(v.op == 'dir')
            if base == 'is_regular_file': return tm.boolt(v.op not in ('dir', 'absent'))
            if base == 'is_empty': return tm.boolt(not s.fs_children(p) if v.op == 'dir' else not v.args[0])
            if base in ('create_directory', 'create_directories'):
                if v.op == 'absent': s.fs_note('mkdir', p); s.fs_put(p, T('dir'))
                return tm.boolt(v.op == 'absent')
            if base == 'remove':
                if v.op == 'absent': return FALSE
                if v.op == 'dir' and s.fs_children(p): return refuse('directory not empty: ' + key(p))
                s.fs_note('remove', p); s.fs_put(p, T('absent')); return TRUE
            if base == 'remove_all':
                for c in s.fs_below(p) + ([p] if v.op != 'absent' else []): s.fs_note('remove', c); s.fs_put(c, T('absent'))
                return T('fsret', base, s.uid())
            if base in ('rename', 'copy', 'copy_file'):
                q = V(1); w = s.fs_get(q)
                if base == 'copy' and w.op == 'dir': q = T('path/', q, part('filename', p)); w = s.fs_get(q)
                if base in s.fsfail: return refuse(base)
                if v.op == 'absent': return refuse('no such file: ' + key(p))
                if v.op == 'dir': return None
                over = len(args) > 2 and 'overwrite' in tm.show(V(2))
                if base != 'rename' and w.op != 'absent' and not over: return refuse('file exists: ' + key(q))
                if s.fs_get(part('parent_path', absolute(q))).op != 'dir': return refuse('no such directory: ' + key(q))
                s.fs_note(base, p, q, 'over' if w.op != 'absent' else 'new'); s.fs_put(q, v)
                if base == 'rename' and key(p) != key(q): s.fs_put(p, T('absent'))
                return T('undef', 'void')
        return None
    def fs_open(s, lv, path, mode, ln):
        from interp import LV
        def end(f, ok, p): s.write(lv.sub('#file'), f, note=False); s.write(lv.sub('#path'), T('str', key(p)) if ok else T('null'), note=False); s.write(lv.sub('#open'), tm.boolt(ok), note=False)
        if not concrete(path): s.write(lv.sub('#file'), T('nofile', 'path'), note=False); s.write(lv.sub('#open'), T('truth', T('st:is_open', s.uid())), note=False); return
        v = s.fs_get(path); names = tm.show(mode) if mode is not None else 'in out'
        has = lambda n: re.search(r'\b_?S?_?%s\b' % n, names) is not None
        out, inn = has('out'), has('in'); app, trunc = has('app') or has('ate'), has('trunc')
        if const(mode) is not None if mode is not None else False:
            b = int(const(mode)); app, out, inn, trunc = bool(b & 3), bool(b & 16), bool(b & 8), bool(b & 32)
        s.fs_note('open', path, ('r' if inn else '') + ('w' if out else '') + ('t' if trunc else '') + ('a' if app else ''))
        parent = s.fs_get(part('parent_path', absolute(path)))
        if v.op == 'dir' or parent.op != 'dir' or (v.op == 'absent' and (inn and not trunc or not out and not app)): end(T('file', (), 0), False, path); return
        if v.op == 'absent' or trunc or out and not inn and not app:
            s.fs_note('truncate' if v.op != 'absent' else 'create', path); v = T('file', (), 0); s.fs_put(path, v)
        if v.op != 'file': end(T('nofile', 'content'), True, path); return
        tot = sum(e[0] for e in v.args[0]); end(T('file', v.args[0], tot if has('app') or has('ate') or (mode is not None and const(mode) is not None and int(const(mode)) & 3) else 0), True, path)
    def fs_sync(s, lv, op):
        """after a stream operation: what was written is in the file"""
        p = s.read(lv.sub('#path'))
        if p.op != 'str' or p.args[0] not in (s.fspaths or {}): return
        q = s.fspaths[p.args[0]]; f = s.read(lv.sub('#file')); s.fs_note(op, q)
        if f.op == 'file':
            if op == 'write': s.fs_put(q, T('file', f.args[0], 0))
        elif op == 'write': s.fs_put(q, f)
