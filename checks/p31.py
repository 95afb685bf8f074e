"""Every call of a C library routine that writes a string of library-determined length (uuid_unparse, strcpy, sprintf, ...) is located
in the type-checked program; the destination is resolved on the value graph to the object it points into, and the capacity of that
object (declared array bound, or the tracked size of a vector/string) is compared with the most the routine can write."""
from common import *
MIN_OBLIGATIONS = 1
TECHNIQUE = 'buffer-capacity dataflow (destination object and extent at every string-writing call)'
# routine -> (destination argument, bytes written including the terminating zero as a function of the argument values)
def lit(v): return num(len(v.args[0].encode()) + 1) if v.op == 'str' else None
W = {'uuid_unparse': (1, lambda a: num(37)), 'uuid_unparse_lower': (1, lambda a: num(37)), 'uuid_unparse_upper': (1, lambda a: num(37)),
     'strcpy': (0, lambda a: lit(a[1])), 'stpcpy': (0, lambda a: lit(a[1])), 'strncpy': (0, lambda a: a[2]), 'memcpy': (0, lambda a: a[2]), 'memset': (0, lambda a: a[2]), 'snprintf': (0, lambda a: a[1]), 'fgets': (0, lambda a: a[1]),
     'gets': (0, lambda a: None), 'sprintf': (0, lambda a: lit(a[1]) if a[1].op == 'str' and '%' not in a[1].args[0] else None)}
STR = set(W) - {'memcpy', 'memset'}
def norm(n): return n.replace('std::', '')
def check(ctx):
    sites = 0
    for drv in ('driver.cc', 'driver_ext.cc'):
        if not os.path.exists(os.path.join(VERIF, 'tool', drv)): continue
        P = ctx.program(drv); done = set()
        for f in P.d['funcs']:
            if not any(norm(c) in W for c in callees(P, f)) or (f['file'], f['ln']) in done: continue
            done.add((f['file'], f['ln']))
            try: I = ctx.run(f)
            except interp.Budget: ctx.unk('text fits', f['qn'][:80]); continue
            for e in events(I.nodes):
                n = norm(e.name)
                if n not in W or e.fn is not None and e.fn is not f and e.fn.get('kind') != 'lambda' and e.fn['qs'] != f['qs']: continue
                di, need = W[n]
                if di >= len(e.args): continue
                d = e.args[di]; nb = need(e.args) if n != 'sprintf' or len(e.args) > 1 else None; sites += n in STR
                what = '%s into %s' % (n, tm.show(d))
                if nb is None or d.op != 'ptr' or not d.args[1] or not isinstance(d.args[1][-1], T): ctx.unk('text fits', what); continue
                root, path = d.args[0], d.args[1]; off = path[-1]; cap = None; t = I.ltypes.get(root, '')
                m = re.search(r'\[(\d+)\]$', unq(t)) or re.match(r'std::array<(?:char|unsigned char|std::byte), (\d+)>$', unq(t))
                if m and len(path) == 1: cap = num(int(m.group(1)))
                elif len(path) == 1 and (unq(t).startswith('std::vector') or 'string' in t): cap = getattr(e, 'caps', {}).get(di)
                if cap is None or decide.has_opaque(cap) or any(a.op == 'proj' for a in tm.atoms(cap)): ctx.unk('text fits', what); continue
                v = decide.holds(tm.le0(sub(add(off, nb), cap), True), list(e.pc))
                ctx.require('text fits', f, v, '%s writes up to %s bytes at offset %s of a buffer of %s (%s)' % (n, tm.show(nb), tm.show(off), tm.show(cap), t), e.ln)
    if len(P.d['funcs']) < 300: raise Broken('program not extracted')
    if not sites: ctx.ok('text fits', 'no string-writing library call in %d functions' % len(P.d['funcs']))
