"""Semantics of the C++ standard library / libc / libuuid entities that the analysed code calls.
Anything not listed falls back to an opaque event that havocs what it may write (sound for the
three-valued verdicts: an unknown value never produces an alarm)."""
import re
from fractions import Fraction
import terms as tm
from terms import T, num, ZERO, ONE, TRUE, FALSE, const, add, sub, mul, div, neg, ite, andb, orb, notb, eqt

FLOATS = {'float', 'double', 'long double'}
VEC_N = {}
STREAMISH = ('std::basic_ostream', 'std::basic_ofstream', 'std::basic_fstream', 'std::basic_istream', 'std::basic_ifstream', 'std::basic_ios', 'std::ios_base', 'std::basic_stringstream', 'std::basic_ostringstream')

def LV_(r, p):
    from interp import LV
    return LV(r, p)
class Models:
    # ------------------------------------------------------------ helpers
    def ev(s, name, obj, args, res, ln, extra=None):
        from interp import Ev
        e = Ev(name, obj, args, res, ln, s.curfn(), s.st.pc, extra); s.out.append(e)
        if name.rsplit('::', 1)[-1] in s.CAPS:
            e.caps = {}
            for i, a in enumerate(args):
                if isinstance(a, T) and a.op == 'ptr' and len(a.args[1]) == 1: e.caps[i] = s.read(LV_(a.args[0], ('#size',)))
        return e
    CAPS = ('uuid_unparse', 'uuid_unparse_lower', 'uuid_unparse_upper', 'strcpy', 'stpcpy', 'strncpy', 'memcpy', 'memset', 'snprintf', 'fgets', 'gets', 'sprintf')
    def typ(s, e): 
        from interp import unq
        return unq(s.P.ty(e['t']))
    def container_kind(s, t):
        from interp import unq
        t = unq(t)
        if t.startswith('std::vector<') or t.startswith('std::deque<'): return 'vector'
        if t.startswith('std::array<') or re.search(r'\[\d+\]$', t): return 'array'
        if t.startswith('std::span<'): return 'span'
        if t.startswith('VectorView<') or re.match(r'\w*(RZ|ZR|RZT|TZR|ZRT)\w*View', t): return 'span'
        if t.startswith('std::unordered_map<') or t.startswith('std::map<'): return 'map'
        if t.startswith('std::basic_string') or t == 'std::string': return 'string'
        r = s.P.rect.get(t)
        if r is not None:
            if any(f['n'] == 'm_data' for f in r['fields']):
                for f in r['fields']:
                    if f['n'] == 'm_data' and s.container_kind(s.P.ty(f['t'])) == 'array': return 'Vector'
            for b in r['bases']:
                k = s.container_kind(s.P.ty(b) if isinstance(b, int) else s.P.ty(b['t']) if isinstance(b, dict) else str(b))
                if k: return k
        return None
    def asize(s, t):
        from interp import unq
        t = unq(t)
        m = re.match(r'std::array<.*, (\d+)>$', t) or re.search(r'\[(\d+)\]$', t)
        if m: return int(m.group(1))
        r = s.P.rect.get(t)
        if r is not None:
            for f in r['fields']:
                if f['n'] == 'm_data':
                    return s.asize(s.P.ty(f['t']))
            for b in r['bases']:
                n = s.asize(s.P.ty(b) if isinstance(b, int) else s.P.ty(b['t']) if isinstance(b, dict) else str(b))
                if n: return n
        return None
    def spansize(s, t):
        from interp import unq
        m = re.match(r'(?:std::span|VectorView)<.*, (\d+)>$', unq(t))
        if m and int(m.group(1)) < 10**9: return int(m.group(1))
        r = s.P.rect.get(unq(t))
        if r is not None:
            for b in r['bases']:
                n = s.spansize(s.P.ty(b) if isinstance(b, int) else s.P.ty(b['t']) if isinstance(b, dict) else str(b))
                if n: return n
        return None
    def spanptr(s, v):
        if v.op == 'span': return v.args[0]
        if v.op == 'ite': return ite(v.args[0], s.spanptr(v.args[1]), s.spanptr(v.args[2]))
        if v.op == 'undef' and len(v.args) == 1: return T('undef', 'span')
        return T('padd', T('spptr', v), ZERO) if False else T('ptr', T('spbuf', v), (ZERO,))
    def spancount(s, v, t):
        n = s.spansize(t)
        if n is not None: return num(n)
        if v.op == 'span': return v.args[1]
        return T('spcnt', v)
    def range_of(s, lv, t):
        k = s.container_kind(t)
        if k == 'vector': return lv.sub(ZERO).ptr(), s.read(lv.sub('#size'))
        if k == 'array': return lv.sub(ZERO).ptr(), num(s.asize(t))
        if k == 'Vector': return lv.sub('m_data').sub(ZERO).ptr(), num(s.asize(t))
        if k == 'span':
            v = s.read(lv); return s.spanptr(v), s.spancount(v, t)
        if k == 'map':
            h = s.read(lv.sub('#has')); ks = None
            if h == T('fillarr', FALSE): ks = []
            elif h.op == 'obj' and h.args[0] == T('fillarr', FALSE):
                tab = {}
                for q, v in h.args[1]:
                    if len(q) != 1 or not isinstance(q[0], T) or const(q[0]) is None or v not in (TRUE, FALSE): tab = None; break
                    tab[q[0]] = v
                if tab is not None: ks = sorted((q for q in tab if tab[q] is TRUE), key=lambda q: const(q))
            if ks is not None:
                for i, q in enumerate(ks): s.write(lv.sub('#keys').sub(num(i)), q, note=False)
                return T('ptr', T('mapelems', lv.root, lv.path), (ZERO,)), num(len(ks))
            return T('ptr', T('mapelems', lv.root, lv.path), (ZERO,)), s.read(lv.sub('#size'))
        if k == 'string': return lv.sub(ZERO).ptr(), s.read(lv.sub('#size'))
        from interp import unq
        r = s.P.rect.get(unq(t))
        if r is not None:
            # user range: call begin()/end() when they are in the program
            for q in ('begin',):
                fs = [f for f in s.P.d['funcs'] if f['n'] == q and f.get('clst') is not None and s.P.ty(f['clst']) == unq(t)]
                ends = [f for f in s.P.d['funcs'] if f['n'] == 'end' and f.get('clst') is not None and s.P.ty(f['clst']) == unq(t)]
                if fs and ends:
                    from interp import pdiff
                    b = s.rv(s.call_fn(fs[0], lv, [], 0)); e = s.rv(s.call_fn(ends[0], lv, [], 0))
                    return b, pdiff(e, b)
        v = s.read(lv)
        if s.fs and 'directory_iterator' in t and v.op == 'mk' and len(v.args) > 1:
            buf = s.fresh('tmp'); cs = s.fs_children(v.args[1])
            for i, c in enumerate(cs): s.write(buf.sub(num(i)), c, note=False)
            return buf.sub(ZERO).ptr(), num(len(cs))
        if v.op == 'undef': v = T('rng', lv.root, lv.path)
        return T('ptr', T('rangebuf', v), (ZERO,)), T('rangecnt', v)
    def wrapref(s, el, rt):
        from interp import LV
        if el.root.op == 'mapelems' and el.path and isinstance(el.path[0], T):
            mp = LV(el.root.args[0], el.root.args[1]); key = s.read(mp.sub('#keys').sub(el.path[0]))
            return LV(T('mapentry', mp.root, mp.path, key), el.path[1:])
        return el
    def typecons(s, lv, v, t): pass
    # ------------------------------------------------------------ construction by type (make_shared, emplace_back …)
    def construct_type(s, lv, t, args, ln):
        from interp import unq
        t = unq(t)
        rec = s.P.rect.get(t)
        if rec is not None:
            cs = [f for f in s.P.d['funcs'] if f['kind'] == 'ctor' and f.get('clst') is not None and s.P.ty(f['clst']) == t and len(f['params']) >= len(args) and all('d' in p for p in f['params'][len(args):])]
            cs.sort(key=lambda f: len(f['params']))
            if len(args) == 1 and isinstance(args[0], object):
                non = [f for f in cs if t not in s.P.ty(f['params'][0]['t'])]
                cp = [f for f in cs if t in s.P.ty(f['params'][0]['t'])]
                cs = non or cp
            if len(cs) >= 1: s.call_fn(cs[0], lv, list(args) + [s.eval(p['d']) for p in cs[0]['params'][len(args):]], ln); return
            if not args: s.write(lv, T('undef', 'default:' + t)); return
            if len(args) == 1: s.write(lv, s.rv(args[0])); return
            s.write(lv, T('mk', t, *([s.rv(a) for a in args] + [s.uid()]))); return
        s.std_ctor(t, {'a': [{'t': -1} for _ in args], 'ln': ln, 'list': False}, args, lv)
    # ------------------------------------------------------------ constructors
    def std_ctor(s, t, e, args, lv):
        from interp import LV, unq, INTW, FLOATY
        t = unq(t); ln = e.get('ln', 0); n = len(args)
        if n <= 1 and (t in INTW or t in FLOATY or t in s.P.enumnames or t.endswith('*')):
            s.write(lv, s.rv(args[0]) if n else (T('null') if t.endswith('*') else ZERO), ln); return
        argt = [unq(s.P.ty(a['t'])) if isinstance(a, dict) and a.get('t', -1) is not None and a.get('t', -1) >= 0 else '' for a in e.get('a', [])]
        def strip_alloc():
            nonlocal n
            if n and argt and (argt[-1].startswith('std::allocator') or argt[-1].startswith('no_init_alloc')): n -= 1
        if t.startswith('std::vector<') or t.startswith('std::deque<'):
            strip_alloc(); noinit = 'no_init_alloc' in t
            if n == 0: s.write(lv, T('fillarr', T('undef', 'elem')), note=False); s.write(lv.sub('#size'), ZERO, ln); return
            v0 = s.rv(args[0])
            if e.get('list') and v0.op in ('list', 'obj') and (v0.op == 'list'):
                s.write(lv, v0, ln, note=False); s.write(lv.sub('#size'), num(len(v0.args)), ln); return
            if n == 1:
                if s.container_kind(argt[0]) == 'vector': s.write(lv, v0, ln); return
                if v0.op == 'list' and not tm.is_num(v0): pass
                s.write(lv, T('fillarr', T('undef', 'uninit') if noinit else ZERO), ln, note=False); s.write(lv.sub('#size'), v0, ln); return
            v1 = s.rv(args[1])
            if n == 2 and ('iterator' in argt[0] or argt[0].endswith('*')):
                from interp import pdiff
                s.write(lv, T('fillarr', T('undef', 'elem')), note=False); s.copy_range(v0, pdiff(v1, v0), lv.sub(ZERO).ptr(), ln); s.write(lv.sub('#size'), pdiff(v1, v0), ln); return
            if n == 2: s.write(lv, T('fillarr', v1), ln, note=False); s.write(lv.sub('#size'), v0, ln); return
        if t.startswith('std::array<'):
            s.write(lv, T('undef', lv.root) if n == 0 else s.rv(args[0]), ln); return
        if t.startswith('std::span<'):
            N = s.spansize(t)
            if n >= 2: 
                v1 = s.rv(args[1])
                if v1.op in ('ptr', 'padd'):
                    from interp import pdiff
                    v1 = pdiff(v1, s.rv(args[0]))
                s.write(lv, T('span', s.rv(args[0]), num(N) if N is not None else v1), note=False); return
            if n == 1:
                p, c = s.range_of(s.lv(args[0]), argt[0]); s.write(lv, T('span', p, num(N) if N is not None else c), note=False); return
        if t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<'):
            if n == 0: s.write(lv, T('null'), ln); return
            s.write(lv, s.rv(args[0]), ln); return
        if t.startswith('std::unordered_map<') or t.startswith('std::map<') or t.startswith('std::set<'):
            if n == 0:
                s.write(lv, T('undef', 'map'), note=False); s.write(lv.sub('#has'), T('fillarr', FALSE), note=False); s.write(lv.sub('#size'), ZERO, ln); return
            s.write(lv, s.rv(args[0]), ln); return
        if t.startswith('std::variant<'):
            if n == 1:
                a = e['a'][0]; ty = argt[0]
                s.write(lv, T('variant', T('type', ty), s.rv(args[0])), ln); return
            if n == 0: s.write(lv, T('variant', T('type', t[len('std::variant<'):].split(',')[0]), ZERO), ln); return
        if t.startswith('std::basic_string') or t == 'std::string':
            if n == 0: s.write(lv, T('str', ''), ln); return
            v0 = s.rv(args[0])
            if n >= 2 and ('iterator' in argt[0] or argt[0].endswith('*')) and ('iterator' in argt[1] or argt[1].endswith('*')):
                from interp import pdiff
                if v0.op == 'ptr' and v0.args[1] and v0.args[1][-1] != ZERO:
                    s.write(lv, T('fillarr', T('undef', 'elem')), note=False); s.copy_range(v0, pdiff(s.rv(args[1]), v0), lv.sub(ZERO).ptr(), ln); s.write(lv.sub('#size'), pdiff(s.rv(args[1]), v0), ln); return
                s.write(lv, T('strof', s.whole(v0), pdiff(s.rv(args[1]), v0)), ln); return
            if n >= 2 and argt[0].endswith('*') and v0.op == 'ptr' and v0.args[1] and v0.args[1][-1] == ZERO and argt[1] in ('unsigned long', 'int', 'unsigned int', 'long'):
                s.write(lv, T('strof', s.whole(v0), s.rv(args[1])), ln); return
            if n >= 2 and (argt[0] in ('unsigned long', 'int', 'unsigned int', 'long')): 
                s.write(lv, T('fillarr', s.rv(args[1])), ln, note=False); s.write(lv.sub('#size'), v0, ln); return
            if v0.op == 'ptr': 
                w = s.whole(v0); s.write(lv, w if w.op == 'str' and s.fs else T('cstr', w), ln); return
            s.write(lv, v0, ln); return
        if t.startswith('std::filesystem::path') or t.startswith('std::filesystem::__cxx11::path'):
            s.write(lv, s.rv(args[0]) if n else T('str', ''), ln); return
        if t.startswith('std::fpos'):
            s.write(lv, s.rv(args[0]) if n else ZERO, ln); return
        if t.startswith('std::reference_wrapper'):
            s.write(lv, T('refw', s.lv(args[0]).ptr()), ln); return
        if t.startswith('std::pair<') or t.startswith('std::tuple<'):
            if n == 2 and t.startswith('std::pair<'):
                s.write(lv, T('undef', 'pair'), note=False); s.write(lv.sub('first'), s.rv(args[0]), note=False); s.write(lv.sub('second'), s.rv(args[1]), note=False); return
            if n == 1: s.write(lv, s.rv(args[0]), ln); return
            s.write(lv, T('tuple', *[s.rv(a) for a in args]), ln); return
        m = re.match(r'std::(plus|minus|multiplies|divides|less|greater|equal_to|less_equal|greater_equal)<(.*)>$', t)
        if m: s.write(lv, T('functor', m.group(1), m.group(2))); return
        if '__normal_iterator' in t or '_Rb_tree' in t:
            if n: s.write(lv, s.rv(args[0]))
            return
        if t.startswith('std::complex<'):
            s.write(lv.sub('re'), s.rv(args[0]) if n else ZERO); s.write(lv.sub('im'), s.rv(args[1]) if n > 1 else ZERO); return
        if n == 0:
            s.write(lv, T('mk', t), ln, note=False); return
        s.write(lv, T('mk', t, *[s.rv(a) for a in args]), ln, note=False)
        if s.fs and re.match(r'std::basic_[io]?f?stream|std::[io]?fstream', t) and 'fstream' in t: s.fs_open(lv, s.rv(args[0]), s.rv(args[1]) if n > 1 else T('str', 'in' if 'ifstream' in t else 'out' if 'ofstream' in t else 'in out'), ln)
        if 'exception' not in t and 'error' not in t and 'directory_iterator' not in t and 'allocator' not in t:
            s.ev('ctor:' + t, lv.ptr(), [s.rv(a) for a in args], None, ln, extra=[a.ptr() if isinstance(a, LV) else None for a in args])
    def uuidtext(s, u):
        # in the abstract file system a random identifier is a representative text of its own
        return T('str', '%08x-aaaa-4aaa-8aaa-aaaaaaaaaaaa' % u.args[0]) if s.fs and u.op == 'uuid' else T('uuidstr', u)
    def whole(s, p):
        """value of the object a character pointer points into"""
        from interp import LV, deref
        if p.op == 'ptr':
            path = p.args[1]
            if path and isinstance(path[-1], T): path = path[:-1]
            return s.read(LV(p.args[0], path))
        return s.read(deref(p))
    # ------------------------------------------------------------ loops over ranges
    def mkloop(s, n, body, ln):
        from interp import LV
        i = LV(T('local', 'alg_i', s.uid())); s.write(i, ZERO)
        s.loop(lambda: tm.lt0(sub(s.read(i), n), True), lambda: body(s.read(i)), lambda: s.write(i, add(s.read(i), ONE)), ln)
    def compare_concrete(s, p, q, cmpf, ln):
        """outcome of the comparison of two elements, None when it is not the same for all values"""
        from interp import deref
        if cmpf is None: r = tm.lt0(sub(s.read(deref(p)), s.read(deref(q))), True)
        else: r = s.tobool(s.rv(s.apply(cmpf, [deref(p), deref(q)], ln)))
        return True if r is TRUE else False if r is FALSE else None
    def concrete_sort(s, first, last, cmpf, ln):
        from interp import deref, padd, pdiff
        n = const(pdiff(last, first))
        if not s.fs or n is None or not 0 <= n <= max(64, s.unroll): return False
        order = []
        for i in range(int(n)):                       # stable insertion: one of the orders that std::sort may produce
            k = len(order)
            while k > 0:
                r = s.compare_concrete(padd(first, num(i)), padd(first, num(order[k - 1])), cmpf, ln)
                if r is None: return False
                if not r: break
                k -= 1
            order.insert(k, i)
        vals = [s.read(deref(padd(first, num(i)))) for i in order]
        for i, v in enumerate(vals): s.write(deref(padd(first, num(i))), v, ln)
        return True
    def copy_range(s, src, n, dst, ln):
        from interp import deref, padd
        c = const(n)
        if c == 0: return
        s.mkloop(n, lambda i: s.write(deref(padd(dst, i)), s.read(deref(padd(src, i))), ln), ln)
    # ------------------------------------------------------------ calls
    def std_call(s, fn, e, obj):
        from interp import LV, deref, padd, pdiff, unq, strip_ta
        ln = e['ln']; op = e.get('op'); A = e['a']
        name = fn.replace('::__cxx11', '')
        if name in ('std::forward', 'std::move', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'std::__addressof') and len(A) == 1:
            x = s.eval(A[0])
            if name.endswith('addressof'): return s.lv(x).ptr()
            if name in ('std::ref', 'std::cref'): return T('refw', s.lv(x).ptr())
            if name == 'std::move' and isinstance(x, LV): s.ev('move', None, [x.ptr()], None, ln)
            return x
        base = name.rsplit('::', 1)[-1]
        # builtin-like iterator / pointer ops
        if obj is not None: return s.std_method(name, base, e, obj)
        args = [s.eval(a) for a in A]
        if s.st.dead: return T('undef', 'dead')
        at = [unq(s.P.ty(a['t'])) for a in A]
        if args and 'execution_policy' in at[0] or args and 'unsequenced' in at[0] or args and 'execution' in at[0]:
            args = args[1:]; at = at[1:]; A = A[1:]
        V = lambda i: s.rv(args[i])
        n = len(args)
        s.functy = ''
        for a in at:
            m = re.match(r'(?:__gnu_cxx::)?__normal_iterator<(?:const )?([\w ]+?) ?(?:const)? ?\*', a) or re.match(r'(?:const )?([\w ]+?) ?(?:const)? ?\*', a)
            if m: s.functy = m.group(1).strip(); break
        if op is not None or base.startswith('operator'):
            r = s.std_op(name, base, op or base[len('operator'):], args, at, e)
            if r is not None: return r
        if name in ('std::min', 'std::max', 'fmin', 'fmax', 'std::fmin', 'std::fmax', 'fminf', 'fmaxf'):
            o = 'min' if 'min' in base else 'max'
            if n == 1 and V(0).op == 'list':
                r = V(0).args[0]
                for x in V(0).args[1:]: r = tm.minmax(o, r, x)
                return r
            if n == 2: return tm.minmax(o, V(0), V(1))
        if name == 'std::clamp': return tm.minmax('min', tm.minmax('max', V(0), V(1)), V(2))
        if name in ('std::abs', 'abs', 'std::fabs', 'fabs', 'fabsf', 'std::fabsf') and n == 1:
            v = V(0); c = const(v)
            if c is not None: return num(abs(c))
            # |x| = |-x|
            w = neg(v)
            return T('abs', v if v.uid < w.uid else w)
        if name in ('std::sqrt', 'sqrt', 'sqrtf'):
            c = const(V(0))
            if c is not None and c >= 0:
                from math import isqrt
                a, b = c.numerator, c.denominator
                if isqrt(a) ** 2 == a and isqrt(b) ** 2 == b: return num(Fraction(isqrt(a), isqrt(b)))
            return T('sqrt', V(0))
        if name in ('std::pow', 'pow', 'powf'):
            c = const(V(1))
            if c is not None and c.denominator == 1 and abs(c) <= 8: return tm.powi(V(0), int(c))
            if s.fs and const(V(0)) is not None and const(V(1)) is not None and const(V(0)) > 0: return num(Fraction(float(const(V(0))) ** float(const(V(1)))))
            if c == Fraction(1, 2): return T('sqrt', V(0))
            if c == Fraction(-1, 2): return tm.inv(T('sqrt', V(0)))
            return T('pow', V(0), V(1))
        if base in ('exp', 'log', 'lgamma', 'tgamma', 'sin', 'cos', 'tan', 'atan', 'acos', 'asin', 'cbrt', 'log10', 'tanh', 'erf', 'round', 'expf') and n == 1:
            c = const(V(0))
            if base == 'exp' and c == 0: return ONE
            if base == 'log' and c == 1: return ZERO
            return T(base, V(0))
        if base in ('atan2', 'hypot', 'fmod') and n == 2: return T(base, V(0), V(1))
        if base in ('ceil', 'ceilf', 'floor', 'floorf', 'trunc') and n == 1:
            b = base.rstrip('f') if base != 'ceilf' else 'ceil'
            b = 'floor' if base.startswith('floor') else 'ceil' if base.startswith('ceil') else 'trunc'
            c = const(V(0))
            if c is not None:
                import math
                return num({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[b](c))
            if V(0).op in ('floor', 'ceil', 'trunc', 'ipart'): return V(0)
            return T(b, V(0))
        if base in ('modf', 'modff'):
            import math
            v = V(0); c = const(v); w = num(math.trunc(c)) if c is not None else T('trunc', v); s.write(deref(V(1)), w, ln); return sub(v, w)
        if base == 'nan': return T('nan')
        if base.startswith('cmp_'):
            o = {'cmp_less': '<', 'cmp_greater': '>', 'cmp_less_equal': '<=', 'cmp_greater_equal': '>=', 'cmp_equal': '==', 'cmp_not_equal': '!='}[base]
            return s.cmp(o, V(0), V(1), False)
        if base in ('htonl', 'ntohl', '__bswap_32', '__builtin_bswap32'):
            v = V(0); c = const(v)
            if c is not None: return num(int.from_bytes(int(c).to_bytes(4, 'little'), 'big'))
            return v.args[0] if v.op == 'bswap32' else T('bswap32', v)
        if base in ('htobe64', 'be64toh', '__builtin_bswap64', '__bswap_64'):
            v = V(0); c = const(v)
            if c is not None and 0 <= c < 2**64: return num(int.from_bytes(int(c).to_bytes(8, 'little'), 'big'))
            return v.args[0] if v.op == 'bswap64' else T('bswap64', v)
        if base in ('memcpy', 'memmove', '__builtin_memcpy') and n == 3:
            def pte(a):
                while a['k'] == 'cast': a = a['e']
                return unq(s.P.ty(a['t']))
            dt = pte(A[0]).rstrip('*').strip(); st = pte(A[1]).rstrip('*').strip()
            d, sr = V(0), V(1)
            c = const(V(2))
            if c is not None and c <= 8: s.write(deref(d), s.bits(s.read(deref(sr)), unq(st), unq(dt)), ln)
            else:
                s.ev('memcpy', None, [d, sr, V(2)], None, ln); s.havoc(deref(d))
            return d
        if base == 'bit_cast': return s.bits(V(0), at[0], s.typ(e))
        if name == 'std::swap' and n == 2:
            a, b = s.lv(args[0]), s.lv(args[1]); x, y = s.read(a), s.read(b); s.write(a, y, ln); s.write(b, x, ln); return T('undef', 'void')
        if name == 'std::exchange' and n == 2:
            a = s.lv(args[0]); x = s.read(a); s.write(a, V(1), ln); return x
        # ---- algorithms
        P = lambda i: V(i)
        if name == 'std::transform':
            if n == 4:
                f = V(3); s.mkloop(pdiff(V(1), V(0)), lambda i, a=V(0), o=V(2): s.write(deref(padd(o, i)), s.rv(s.apply(f, [deref(padd(a, i))], ln)), ln), ln); return padd(V(2), pdiff(V(1), V(0)))
            if n == 5:
                f = V(4); s.mkloop(pdiff(V(1), V(0)), lambda i, a=V(0), b=V(2), o=V(3): s.write(deref(padd(o, i)), s.rv(s.apply(f, [deref(padd(a, i)), deref(padd(b, i))], ln)), ln), ln); return padd(V(3), pdiff(V(1), V(0)))
        if name == 'std::copy' and n == 3:
            k = pdiff(V(1), V(0))
            if V(2).op == 'backins':
                lv = LV(V(2).args[0], V(2).args[1]); s.copy_range(V(0), k, padd(lv.sub(ZERO).ptr(), s.read(lv.sub('#size'))), ln); s.write(lv.sub('#size'), add(s.read(lv.sub('#size')), k), ln); return V(2)
            s.ev('copy', None, [V(0), k, V(2)], None, ln); s.copy_range(V(0), k, V(2), ln); return padd(V(2), k)
        if name == 'std::copy_n' and n == 3: s.copy_range(V(0), V(1), V(2), ln); return padd(V(2), V(1))
        if name == 'std::copy_backward' and n == 3:
            k = pdiff(V(1), V(0)); s.copy_range(V(0), k, padd(V(2), neg(k)), ln); return padd(V(2), neg(k))
        if name == 'std::fill' and n == 3: s.mkloop(pdiff(V(1), V(0)), lambda i, a=V(0), v=V(2): s.write(deref(padd(a, i)), v, ln), ln); return T('undef', 'void')
        if name == 'std::fill_n' and n == 3: s.mkloop(V(1), lambda i, a=V(0), v=V(2): s.write(deref(padd(a, i)), v, ln), ln); return padd(V(0), V(1))
        if name == 'std::iota' and n == 3: s.mkloop(pdiff(V(1), V(0)), lambda i, a=V(0), v=V(2): s.write(deref(padd(a, i)), add(v, i), ln), ln); return T('undef', 'void')
        if name == 'std::generate' and n == 3: s.mkloop(pdiff(V(1), V(0)), lambda i, a=V(0), v=V(2): s.write(deref(padd(a, i)), s.rv(s.apply(v, [], ln)), ln), ln); return T('undef', 'void')
        if name in ('std::for_each', 'std::for_each_n') and n == 3:
            k = pdiff(V(1), V(0)) if name == 'std::for_each' else V(1); f = V(2)
            s.mkloop(k, lambda i, a=V(0): s.apply(f, [deref(padd(a, i))], ln), ln); return f
        if name in ('std::accumulate', 'std::reduce') and n in (2, 3, 4):
            acc = s.fresh('local', 'acc'); s.write(acc, V(2) if n > 2 else ZERO); f = V(3) if n == 4 else T('functor', 'plus', '')
            s.mkloop(pdiff(V(1), V(0)), lambda i, a=V(0): s.write(acc, s.rv(s.apply(f, [s.read(acc), deref(padd(a, i))], ln))), ln); return s.read(acc)
        if name in ('std::inner_product', 'std::transform_reduce') and n in (4, 6):
            acc = s.fresh('local', 'acc'); s.write(acc, V(3)); f1 = V(4) if n == 6 else T('functor', 'plus', ''); f2 = V(5) if n == 6 else T('functor', 'multiplies', '')
            s.mkloop(pdiff(V(1), V(0)), lambda i, a=V(0), b=V(2): s.write(acc, s.rv(s.apply(f1, [s.read(acc), s.rv(s.apply(f2, [deref(padd(a, i)), deref(padd(b, i))], ln))], ln))), ln); return s.read(acc)
        if name in ('std::all_of', 'std::any_of', 'std::none_of') and n == 3:
            acc = s.fresh('local', 'acc'); s.write(acc, FALSE if name == 'std::any_of' else TRUE); f = V(2)
            def bd(i, a=V(0)):
                x = s.tobool(s.rv(s.apply(f, [deref(padd(a, i))], ln)))
                s.write(acc, orb(s.read(acc), x) if name == 'std::any_of' else andb(s.read(acc), x if name == 'std::all_of' else notb(x)))
            s.mkloop(pdiff(V(1), V(0)), bd, ln); return s.read(acc)
        if name == 'std::equal' and n in (3, 4, 5):
            acc = s.fresh('local', 'acc'); s.write(acc, TRUE); two = n == 5 or n == 4 and V(3).op not in ('clo', 'functor', 'bind', 'fn', 'fref'); f = V(n - 1) if n == 5 or n == 4 and not two else None
            if two: s.write(acc, eqt(pdiff(V(1), V(0)), pdiff(V(3), V(2))))
            s.mkloop(pdiff(V(1), V(0)), lambda i, a=V(0), b=V(2): s.write(acc, andb(s.read(acc), eqt(s.read(deref(padd(a, i))), s.read(deref(padd(b, i)))) if f is None else s.tobool(s.rv(s.apply(f, [deref(padd(a, i)), deref(padd(b, i))], ln))))), ln); return s.read(acc)
        if name in ('std::sort', 'std::stable_sort', 'std::partial_sort', 'std::nth_element'):
            first, last = V(0), V(n - 2) if name in ('std::sort', 'std::stable_sort') and n == 3 else V(n - 1)
            cmpf = None
            if name in ('std::sort', 'std::stable_sort'): last = V(1); cmpf = V(2) if n == 3 else None
            else: last = V(2); cmpf = V(3) if n == 4 else None
            if s.concrete_sort(first, last, cmpf, ln): return T('undef', 'void')
            x, y = LV(T('sym', 'sort_a')), LV(T('sym', 'sort_b')); cv = None
            if cmpf is not None:
                saved, s.out = s.out, []; st0 = s.st.copy(); cv = s.rv(s.apply(cmpf, [x, y], ln)); s.st = st0; s.out = saved
            ev = s.ev(name, None, [first, pdiff(last, first), cv if cv is not None else T('none')], None, ln, extra={'mid': pdiff(V(1), V(0))})
            lv = deref(first); b = LV(lv.root, lv.path[:-1]) if lv.path and isinstance(lv.path[-1], T) else lv
            sz = s.read(b.sub('#size')); old = s.read(b)
            s.write(b, T('sorted', old, first, pdiff(last, first), cv if cv is not None else T('none')), ln); s.write(b.sub('#size'), sz, note=False)
            return T('undef', 'void')
        if name in ('std::min_element', 'std::max_element') and n in (2, 3):
            cv = None
            k = const(pdiff(V(1), V(0)))
            if s.fs and k is not None and 0 < k <= max(64, s.unroll):
                best = 0
                for i in range(1, int(k)):
                    a, b = (i, best) if base == 'min_element' else (best, i)
                    r = s.compare_concrete(padd(V(0), num(a)), padd(V(0), num(b)), V(2) if n == 3 else None, ln)
                    if r is None: best = None; break
                    if r: best = i
                if best is not None: return padd(V(0), num(best))
            x, y = LV(T('sym', 'sort_a')), LV(T('sym', 'sort_b'))
            if n == 3:
                saved, s.out = s.out, []; st0 = s.st.copy(); cv = s.rv(s.apply(V(2), [x, y], ln)); s.st = st0; s.out = saved
            idx = T('arg' + base[:3], V(0), pdiff(V(1), V(0)), cv if cv is not None else T('none'))
            s.ev(name, None, [V(0), pdiff(V(1), V(0)), cv if cv is not None else T('none')], idx, ln)
            return padd(V(0), idx)
        if name in ('std::find', 'std::find_if', 'std::lower_bound', 'std::upper_bound') and n >= 3:
            return padd(V(0), T(base, V(0), pdiff(V(1), V(0)), V(2), s.uid()))
        if name == 'std::distance': return pdiff(V(1), V(0))
        if name == 'std::advance': l = s.lv(args[0]); s.write(l, padd(s.read(l), V(1)), ln); return T('undef', 'void')
        if name in ('std::next', 'std::prev'):
            k = V(1) if n > 1 else ONE; return padd(V(0), k if base == 'next' else neg(k))
        if name in ('std::begin', 'std::cbegin'): return s.range_of(s.lv(args[0]), at[0])[0]
        if name in ('std::end', 'std::cend'): p, c = s.range_of(s.lv(args[0]), at[0]); return padd(p, c)
        if name in ('std::size', 'std::ssize'): return s.range_of(s.lv(args[0]), at[0])[1]
        if name == 'std::data': return s.range_of(s.lv(args[0]), at[0])[0]
        if name == 'std::back_inserter': l = s.lv(args[0]); return T('backins', l.root, l.path)
        if name.startswith('std::numeric_limits::'):
            ty = s.typ(e)
            lim = {'unsigned long': (0, 2**64 - 1), 'unsigned int': (0, 2**32 - 1), 'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1)}
            if ty in lim and base in ('min', 'max', 'lowest'): return num(lim[ty][1 if base == 'max' else 0])
            return T('lim', base, ty)
        if name == 'std::make_shared' or name == 'std::make_unique':
            ty = e['ta'][0]; lv = LV(T('new', s.uid())); s.construct_type(lv, ty, args, ln); return lv.ptr()
        if name in ('std::make_pair',):
            lv = s.fresh('tmp'); s.write(lv, T('undef', 'pair')); s.write(lv.sub('first'), V(0)); s.write(lv.sub('second'), V(1)); return lv
        if name in ('std::forward_as_tuple', 'std::tie'): return T('tuple', *[T('refw', s.lv(a).ptr()) for a in args])
        if name == 'std::make_tuple': return T('tuple', *[s.rv(a) for a in args])
        if name == 'std::get':
            x = args[0]; v = s.rv(x); t0 = e['ta'][0]
            if unq(at[0]).startswith('std::variant<'):
                lv = s.lv(x); return lv.sub('#get:' + unq(t0))
            comps = s.targs(at[0])
            idx = None
            if re.match(r'^\d+$', str(t0)): idx = int(t0)
            else:
                for i, c in enumerate(comps):
                    if c.strip() == str(t0).strip(): idx = i
            if 'std::array' in at[0] and idx is not None: return s.lv(x).sub(num(idx))
            if 'std::pair' in at[0] and idx is not None: return s.pairmem(s.lv(x), 'first' if idx == 0 else 'second')
            if v.op == 'tuple' and idx is not None and idx < len(v.args):
                w = v.args[idx]
                return deref(w.args[0]) if w.op == 'refw' else w
            if idx is not None:
                w = T('tget', v, num(idx))
                return deref(w) if comps and comps[idx].strip().endswith('&') else w
        if name == 'std::holds_alternative':
            return s.holds(V(0), T('type', unq(e['ta'][0])))
        if name == 'std::get_if' and n == 1:
            lv = deref(V(0)); h = s.holds(s.read(lv), T('type', unq(e['ta'][0]))); return ite(h, lv.sub('#get:' + unq(e['ta'][0])).ptr(), T('null'))
        if name in ('std::bind',): return T('bind', *[s.rv(a) for a in args])
        if name in ('std::setprecision', 'std::setw', 'std::endl', 'std::flush'): return T('manip', base, *[s.rv(a) for a in args])
        if name == 'std::to_string':
            v = V(0); c = const(v)
            if s.fs and c is not None and c.denominator == 1 and unq(at[0]) not in FLOATS: return T('str', str(int(c)))
            return T('tostr', v)
        if name in ('std::isnan', 'std::isinf', 'std::isfinite', 'isnan', 'isfinite', 'isinf'): return T('truth', T(base, V(0)))
        if name.startswith('std::filesystem::'):
            if s.fs:
                r = s.fs_call(base, args, ln, s.lv(args[-1]) if at and 'error_code' in unq(at[-1]) else None)
                if r is not None or s.st.dead: return r if r is not None else T('undef', 'dead')
            if base in ('absolute', 'canonical', 'weakly_canonical'): return T('abs_path', V(0)) if V(0).op != 'abs_path' else V(0)
            if base in ('exists', 'is_directory', 'is_regular_file'):
                r = T('truth', T('fs:' + base, V(0), s.uid())); s.ev('fs:' + base, None, [V(0)], r, ln); return r
            s.ev('fs:' + base, None, [s.rv(a) for a in args], None, ln)
            if base == 'temp_directory_path': return T('tmpdir')
            return T('fsret', base, *([s.rv(a) for a in args] + [s.uid()]))
        if base in ('uuid_generate_random', 'uuid_generate'):
            s.ev(base, None, [V(0)], None, ln); l = deref(V(0)); s.write(LV(l.root, l.path[:-1]), T('uuid', s.uid()), ln); return T('undef', 'void')
        if base in ('uuid_unparse', 'uuid_unparse_lower'):
            s.ev(base, None, [V(0), V(1)], None, ln); l = deref(V(1)); s.write(LV(l.root, l.path[:-1]), s.uuidtext(s.whole(V(0))), ln); return T('undef', 'void')
        # ---- fallback
        return s.fallback(name, e, None, args, at)
    def targs(s, t):
        i = t.find('<'); out = []; d = 0; cur = ''
        for ch in t[i + 1:-1]:
            if ch in '<(': d += 1
            if ch in '>)': d -= 1
            if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur.strip())
        return out
    def holds(s, v, ty):
        if v.op == 'variant': return tm.boolt(v.args[0] is ty)
        if v.op == 'ite': return ite(v.args[0], s.holds(v.args[1], ty), s.holds(v.args[2], ty))
        if v.op == 'obj' and (() in dict(v.args[1])): return s.holds(dict(v.args[1])[()], ty)
        if v.op == 'obj': return s.holds(v.args[0], ty)
        return eqt(T('tagof', v), ty)
    def pairmem(s, lv, which):
        from interp import LV
        if lv.root.op == 'mapentry' and not lv.path:
            mp = LV(lv.root.args[0], lv.root.args[1]); key = lv.root.args[2]
            if which == 'first': return s.lv(key)
            return mp.sub(key)
        return lv.sub(which)
    def fallback(s, name, e, obj, args, at):
        from interp import LV, deref
        ln = e['ln']; pt = [s.P.ty(x) for x in e.get('pt', [])]
        av = [s.rv(a) for a in args]
        off = len(av) - len(pt)
        o = None
        if obj is not None: o = s.lv(obj)
        mut = obj is not None and not e.get('cm')
        ev = s.ev(name, o.ptr() if o is not None else None, av, None, ln, extra=[a.ptr() if isinstance(a, LV) else None for a in args])
        r = T('call', name, *( ([s.read(o)] if o is not None and not mut else []) + av + ([s.uid()] if mut or not name.startswith('std::') else [])))
        for i, a in enumerate(args):
            p = pt[i] if i < len(pt) else ''
            if p.endswith('&') and not p.startswith('const') and not p.endswith('&&') and isinstance(a, LV): s.havoc(a)
            elif p.endswith('*') and not p.startswith('const') and av[i].op in ('ptr', 'padd'):
                l = deref(av[i]); s.havoc(LV(l.root, l.path[:-1]) if l.path and isinstance(l.path[-1], T) else l)
        if mut: s.havoc(o)
        ev.res = r
        s.unknown.append(('lib', name, ln))
        rt = s.P.ty(e['t'])
        if rt == 'void': return T('undef', 'void')
        return r
    # ------------------------------------------------------------ free operators
    def std_op(s, name, base, op, args, at, e):
        from interp import LV, deref, padd, pdiff
        ln = e['ln']; V = lambda i: s.rv(args[i]); n = len(args)
        itert = lambda t: 'iterator' in t or t.endswith('*')
        if n == 2 and (itert(at[0]) or itert(at[1])):
            if op == '-': return pdiff(V(0), V(1))
            if op == '+': return padd(V(0), V(1)) if itert(at[0]) else padd(V(1), V(0))
            if op in ('==', '!=', '<', '>', '<=', '>='): return s.cmp(op, V(0), V(1), False)
        if n == 1 and op == '*' and itert(at[0]): return deref(V(0))
        if op == '<<':
            lv = s.lv(args[0]); g = lv.root
            if g.op == 'glob' and ('cout' in str(g.args[0]) or 'cerr' in str(g.args[0])): return args[0]
            s.ev('<<', lv.ptr(), [V(1)], None, ln); return args[0]
        if op == '>>': s.ev('>>', s.lv(args[0]).ptr(), [], None, ln); s.havoc(s.lv(args[1])); return args[0]
        if name.startswith('std::filesystem::'):
            if s.fs:
                from fsmodel import canon
                a, b = canon(V(0)), canon(V(1))
                if op == '/': return canon(T('path/', a, b))
                if op in ('==', '!='):
                    r = eqt(a, b) if a.op == b.op == 'str' or a is b else FALSE if {a.op, b.op} <= {'str', 'path/', 'path+', 'cstr', 'strof', 'uuidstr'} else eqt(a, b)
                    return r if op == '==' else notb(r)
            if op == '/': return T('path/', V(0), V(1))
            if op in ('==', '!='): r = eqt(V(0), V(1)); return r if op == '==' else notb(r)
        if op == '|': return T('b|', *sorted((V(0), V(1))))
        if op == '&': return T('b&', *sorted((V(0), V(1))))
        if n == 2 and ('string' in at[0] or 'string' in at[1] or 'char' in at[0]):
            if op == '+': return T('str+', V(0), V(1))
            if op in ('==', '!='): r = eqt(V(0), V(1)); return r if op == '==' else notb(r)
        if n == 2 and op in ('==', '!='):
            r = eqt(V(0), V(1)); return r if op == '==' else notb(r)
        if 'complex' in at[0] or (n > 1 and 'complex' in at[1]):
            return T('c' + op, *[s.rv(a) for a in args])
        return None
    # ------------------------------------------------------------ methods
    def std_method(s, name, base, e, obj):
        from interp import LV, deref, padd, pdiff, unq
        ln = e['ln']; op = e.get('op') or (base[8:] if base.startswith('operator') and base[8:] in ('[]', '()', '*', '->', '=', '++', '--', '+=', '-=', '==', '!=') else None); A = e['a']
        ot = unq(s.P.ty(e['o']['t']))
        if ot.endswith('*') and e.get('arrow'): ot = unq(ot[:-1])
        cls = name[:name.index('::operator ')] if '::operator ' in name else name.rsplit('::', 1)[0]
        if '::operator ' in name: base = name[len(cls) + 2:]
        if cls.startswith('std::_Rb_tree') or 'iterator' in cls and 'directory' not in cls or cls.startswith('std::__detail'):
            lv = s.lv(obj); p = s.read(lv)
            if op == '*': s.eval_args(A); return s.wrapref(deref(p), '')
            if op == '->': 
                el = s.wrapref(deref(p), ''); return el.ptr()
            if op in ('++', '--'):
                s.write(lv, padd(p, ONE if op == '++' else num(-1)), ln); return p if A else lv
            if op in ('+', '-') and len(A) == 1:
                k = s.rv(s.eval(A[0]))
                if k.op in ('ptr', 'padd'): return pdiff(p, k)
                return padd(p, k if op == '+' else neg(k))
            if op in ('+=', '-='):
                k = s.rv(s.eval(A[0])); s.write(lv, padd(p, k if op == '+=' else neg(k)), ln); return lv
            if op == '[]': return deref(padd(p, s.rv(s.eval(A[0]))))
            if op in ('==', '!='): return s.cmp(op, p, s.rv(s.eval(A[0])), False)
            if base == 'base': return p
        if cls.startswith('std::__shared_ptr') or cls in ('std::shared_ptr', 'std::unique_ptr') or cls.startswith('std::unique_ptr'):
            p = s.rv(obj)
            if op in ('*',): s.use(p, ln); return deref(p)
            if op == '->' or base == 'get': return p
            if base == 'operator bool': return s.tobool(p)
            if op == '=': 
                v = s.rv(s.eval(A[0])); s.write(s.lv(obj), v, ln); return obj
            if base == 'reset': s.write(s.lv(obj), s.rv(s.eval(A[0])) if A else T('null'), ln); return T('undef', 'void')
            if base == 'swap': return s.std_call('std::swap', dict(e, a=[e['o'], A[0]]), None)
        args = [s.eval(a) for a in A]
        if s.st.dead: return T('undef', 'dead')
        V = lambda i: s.rv(args[i]); n = len(args)
        at = [unq(s.P.ty(a['t'])) for a in A]
        if cls == 'std::array' or (cls == 'std::vector') or cls == 'std::span' or cls == 'std::basic_string' or cls == 'std::deque' or cls.startswith('std::_Vector_base'):
            lv = s.lv(obj)
            if cls == 'std::span':
                v = s.read(lv); p = s.spanptr(v); c = s.spancount(v, ot)
            elif cls == 'std::array': p = lv.sub(ZERO).ptr(); c = num(s.asize(ot)) if s.asize(ot) is not None else T('asize', ot)
            else: p = lv.sub(ZERO).ptr(); c = None
            cnt = lambda: c if c is not None else s.read(lv.sub('#size'))
            if base in ('begin', 'cbegin', 'data'):
                return p
            if base == 'c_str': return p
            if base in ('end', 'cend'): return padd(p, cnt())
            if base == 'at':
                i = V(0)
                def oor():
                    from interp import Exit
                    s.out.append(Exit('throw', None, T('str', 'out_of_range'), ln, s.curfn(), s.st.pc)); s.st.dead = True
                s.run_if(andb(tm.le0(neg(i), True), tm.lt0(sub(i, cnt()), True)), lambda: None, oor, ln)
                return deref(padd(p, i)) if not s.st.dead else T('undef', 'dead')
            if op == '[]': return deref(padd(p, V(0)))
            if base == 'front': return deref(p)
            if base == 'back': return deref(padd(p, sub(cnt(), ONE)))
            if base in ('size', 'length'): return cnt()
            if base == 'size_bytes':
                return mul(cnt(), num(s.elsize(ot)))
            if base == 'empty': return eqt(cnt(), ZERO)
            if base == 'fill': s.mkloop(cnt(), lambda i, v=V(0): s.write(deref(padd(p, i)), v, ln), ln); return T('undef', 'void')
            if base in ('subspan', 'first', 'last') and cls == 'std::span':
                o_ = V(0) if base == 'subspan' else (ZERO if base == 'first' else sub(cnt(), V(0)))
                k = (V(1) if n > 1 else sub(cnt(), V(0))) if base == 'subspan' else V(0)
                return T('span', padd(p, o_), k)
            if cls in ('std::vector', 'std::deque', 'std::basic_string'):
                szl = lv.sub('#size')
                if base == 'push_back':
                    k = s.read(szl); s.ev('vector::push_back', lv.ptr(), [V(0)], None, ln); s.realloc(lv); s.write(lv.sub(k), V(0), ln); s.write(szl, add(k, ONE), ln); return T('undef', 'void')
                if base == 'emplace_back':
                    k = s.read(szl); s.ev('vector::emplace_back', lv.ptr(), [s.rv(a) for a in args], None, ln); s.realloc(lv)
                    ta = s.targs(ot); s.construct_type(lv.sub(k), ta[0] if ta else '', args, ln); s.write(szl, add(k, ONE), ln); return lv.sub(k)
                if base == 'pop_back': s.write(szl, sub(s.read(szl), ONE), ln); return T('undef', 'void')
                if base == 'reserve' or base == 'shrink_to_fit': s.ev('vector::' + base, lv.ptr(), [s.rv(a) for a in args], None, ln); return T('undef', 'void')
                if base == 'capacity': return T('cap', s.read(lv))
                if base == 'clear': s.write(lv, T('fillarr', T('undef', 'elem')), note=False); s.write(szl, ZERO, ln); s.ev('vector::clear', lv.ptr(), [], None, ln); s.realloc(lv); return T('undef', 'void')
                if base == 'resize':
                    old = s.read(szl); ov = s.read(lv); s.ev('vector::resize', lv.ptr(), [s.rv(a) for a in args], None, ln)
                    if s.clock is not None and not (const(old) is not None and const(V(0)) is not None and const(V(0)) <= const(old)): s.realloc(lv)
                    fill = V(1) if n > 1 else (T('undef', 'uninit') if 'no_init_alloc' in ot else ZERO)
                    kp = None
                    if s.fs and fill.op == 'undef' and const(old) is not None and const(V(0)) is not None:     # elements of a grown-again vector are what is left in its storage
                        pk = s.st.store.get(lv.root, {}).get(lv.sub('#peak').path); pk = max(const(pk) if pk is not None else 0, const(old)); kp = const(V(0)) <= pk
                        s.write(lv.sub('#peak'), num(max(pk, const(V(0)))), note=False)
                    if kp: pass
                    elif const(old) == 0: s.write(lv, T('fillarr', fill), note=False)
                    else: s.write(lv, T('resized', ov, old, fill), note=False)
                    s.write(szl, V(0), ln); return T('undef', 'void')
                if base == 'assign' and n == 2:
                    if 'iterator' in at[0] or at[0].endswith('*'): k = pdiff(V(1), V(0)); s.copy_range(V(0), k, p, ln); s.write(szl, k, ln)
                    else: s.write(lv, T('fillarr', V(1)), note=False); s.write(szl, V(0), ln)
                    return T('undef', 'void')
                if op == '=': s.write(lv, V(0), ln); return obj
                if base == 'insert' and n == 3:
                    k = s.read(szl)
                    if pdiff(V(0), padd(p, k)) is ZERO:
                        m = pdiff(V(2), V(1)); s.ev('vector::insert_end', lv.ptr(), [V(1), m], None, ln); s.realloc(lv)
                        s.copy_range(V(1), m, padd(p, k), ln); s.write(szl, add(k, m), ln); return V(0)
                if base == 'erase' or base == 'insert':
                    k = s.read(szl); s.ev('vector::' + base, lv.ptr(), [s.rv(a) for a in args], None, ln); s.realloc(lv); s.havoc(lv); return T('it', s.uid())
                if base == 'swap': 
                    b = s.lv(args[0]); x, y = s.read(lv), s.read(b); s.write(lv, y, ln); s.write(b, x, ln); return T('undef', 'void')
                if op == '+=' or base == 'append': s.write(lv, T('str+', s.read(lv), V(0)), ln); return obj
        if cls in ('std::unordered_map', 'std::map', 'std::unordered_set', 'std::set'):
            lv = s.lv(obj)
            has = lambda k: s.has(lv, k)
            if base in ('contains', 'count'): return has(V(0))
            if base == 'at': return lv.sub(V(0))
            if op == '[]':
                k = V(0); h = has(k); sz = s.read(lv.sub('#size')); s.ev('map::insert', lv.ptr(), [k], None, ln)
                s.write(lv.sub('#has').sub(k), TRUE, ln, note=False); s.write(lv.sub('#size'), ite(h, sz, add(sz, ONE)), ln, note=False); return lv.sub(k)
            if base == 'erase' and n == 1:
                k = V(0)
                if k.op in ('mapit',): k = k.args[2]
                h = has(k); sz = s.read(lv.sub('#size')); s.ev('map::erase', lv.ptr(), [k], None, ln)
                s.write(lv.sub('#has').sub(k), FALSE, ln, note=False); s.write(lv.sub('#size'), ite(h, sub(sz, ONE), sz), ln, note=False); return h
            if base == 'size': return s.read(lv.sub('#size'))
            if base == 'empty': return eqt(s.read(lv.sub('#size')), ZERO)
            if base == 'clear': s.write(lv.sub('#has'), T('fillarr', FALSE), note=False); s.write(lv.sub('#size'), ZERO, ln); s.ev('map::clear', lv.ptr(), [], None, ln); return T('undef', 'void')
            if base in ('begin', 'cbegin'): return s.range_of(lv, ot)[0]
            if base in ('end', 'cend'): 
                p, c = s.range_of(lv, ot); return padd(p, c)
            if base in ('insert', 'insert_or_assign', 'emplace', 'try_emplace'):
                a = args[-1]; av = s.rv(a)
                if base == 'insert' and 'pair' in at[-1]:
                    k, v = s.rv(s.pairmem(s.lv(a), 'first')), s.rv(s.pairmem(s.lv(a), 'second'))
                elif n == 2: k, v = V(0), V(1)
                else: return s.fallback(name, e, obj, args, at)
                h = has(k); sz = s.read(lv.sub('#size')); s.ev('map::insert', lv.ptr(), [k, v], None, ln)
                s.write(lv.sub(k), v if base == 'insert_or_assign' else ite(h, s.read(lv.sub(k)), v), ln)
                s.write(lv.sub('#has').sub(k), TRUE, note=False); s.write(lv.sub('#size'), ite(h, sz, add(sz, ONE)), note=False); return T('it', s.uid())
            if base == 'find': return T('mapit', lv.root, lv.path, V(0))
        if cls == 'std::variant':
            lv = s.lv(obj)
            if op == '=':
                ty = at[0]
                v = V(0)
                if ty.startswith('std::variant'): s.write(lv, v, ln)
                else: s.write(lv, T('variant', T('type', ty), v), ln)
                return obj
            if base == 'index': return T('vindex', s.read(lv))
            if base == 'emplace': 
                tmp = s.fresh('tmp'); s.construct_type(tmp, e['ta'][0], args, ln); s.write(lv, T('variant', T('type', unq(e['ta'][0])), s.read(tmp)), ln); return lv.sub('#get:' + unq(e['ta'][0]))
        if s.fs and cls == 'std::error_code':
            lv = s.lv(obj); k = const(s.read(lv.sub('#ec')))
            if base == 'clear': s.write(lv.sub('#ec'), ZERO, note=False); return T('undef', 'void')
            if k is not None and base == 'operator bool': return tm.boolt(k != 0)
            if k is not None and base == 'value': return num(int(k))
        if cls.startswith('std::basic_') and ('stream' in cls or 'ios' in cls) or cls == 'std::ios_base':
            lv = s.lv(obj); o = lv.ptr()
            if op == '<<' or base == 'operator<<':
                g = lv.root
                if g.op == 'glob' and ('cout' in str(g.args[0]) or 'cerr' in str(g.args[0])): return obj
                if args: s.ev('<<', o, [V(0)], None, ln)
                return obj
            if s.fs and 'fstream' in cls or s.fs and base in ('open', 'close', 'is_open'):
                if base == 'open': s.fs_open(lv, V(0), V(1) if n > 1 else T('str', 'in' if 'ifstream' in ot else 'out' if 'ofstream' in ot else 'in out'), ln); s.ev('open', o, [V(i) for i in range(n)], None, ln); return T('undef', 'void')
                if base == 'close': s.fs_sync(lv, 'close'); s.write(lv.sub('#path'), T('null'), note=False); s.write(lv.sub('#open'), FALSE, note=False); s.ev('close', o, [], None, ln); return T('undef', 'void')
                if base == 'is_open' and tm.isbool(s.read(lv.sub('#open'))): return s.read(lv.sub('#open'))
            if s.fs and base in ('good', 'operator bool', 'fail', 'bad', 'operator!') and s.read(lv.sub('#open')) in (TRUE, FALSE):
                k = s.read(lv.sub('#open')); return k if base in ('good', 'operator bool') else notb(k)
            F = s.read(lv.sub('#file'))
            if F.op == 'file' and base in ('write', 'read', 'tellg', 'tellp', 'seekg', 'seekp', 'open', 'close'):
                r = s.fileop(lv, F, base, e, args, V, at, ln)
                if s.fs and base in ('write', 'read'): s.fs_sync(lv, base)
                return obj if r is None else r
            if base == 'write':
                src = s.whole(V(0)); s.ev('write', o, [V(0), V(1)], None, ln, extra={'val': src}); return obj
            if base == 'read':
                r = T('wire', s.uid()); s.ev('read', o, [V(0), V(1)], r, ln)
                l = deref(V(0))
                if l.path and isinstance(l.path[-1], T) and l.path[-1] is ZERO:
                    b = LV(l.root, l.path[:-1]); sz = s.read(b.sub('#size')); s.write(b, r, ln)
                    if not (sz.op == 'undef' or sz.op == 'proj' and sz.args[0].op == 'undef'): s.write(b.sub('#size'), sz, note=False)
                else: s.write(l, r, ln)
                return obj
            if base in ('tellg', 'tellp'):
                r = T('tell', s.uid()); s.ev(base, o, [], r, ln); return r
            if base in ('seekg', 'seekp', 'open', 'close', 'flush', 'clear', 'ignore', 'setf', 'precision'):
                s.ev(base, o, [s.rv(a) for a in args], None, ln)
                return obj if base.startswith('seek') else T('undef', 'void')
            if base in ('is_open', 'good', 'fail', 'eof', 'bad', 'operator!', 'operator bool'):
                r = T('truth', T('st:' + base, s.uid())); s.ev(base, o, [], r, ln); return r
        if cls.startswith('std::filesystem::path') or cls == 'std::filesystem::path':
            lv = s.lv(obj)
            if s.fs:
                from fsmodel import canon, part, absolute
                if op == '/=' or base == 'append': s.write(lv, canon(T('path/', s.read(lv), V(0))), ln); return obj
                if op == '+=' or base == 'concat': s.write(lv, canon(T('path+', s.read(lv), V(0))), ln); return obj
                if base in ('filename', 'extension', 'parent_path', 'stem'): return part(base, s.read(lv))
                if base == 'empty':
                    v = canon(s.read(lv))
                    if v.op in ('path/', 'path+', 'uuidstr', 'cstr', 'strof'): return FALSE
                    return eqt(v, T('str', ''))
                if base == 'is_absolute' and canon(s.read(lv)).op == 'str': return tm.boolt(canon(s.read(lv)).args[0].startswith('/'))
            if op == '=' or base == 'operator=': s.write(lv, V(0), ln); return obj
            if op in ('/=',): s.write(lv, T('path/', s.read(lv), V(0)), ln); return obj
            if op in ('+=',) or base == 'concat': s.write(lv, T('path+', s.read(lv), V(0)), ln); return obj
            if base == 'append': s.write(lv, T('path/', s.read(lv), V(0)), ln); return obj
            if base in ('string', 'native', 'u8string', 'generic_string', 'operator basic_string', 'c_str'): return s.read(lv)
            if base == 'empty': return eqt(s.read(lv), T('str', ''))
            if base in ('filename', 'extension', 'parent_path', 'stem'): return T('p:' + base, s.read(lv))
            if base in ('is_absolute', 'is_relative', 'has_extension', 'has_filename'): return T('truth', T('p:' + base, s.read(lv)))
        if cls.startswith('std::filesystem::directory_'):
            if s.fs and (base == 'path' or base.startswith('operator const')): return obj
            if op == '*': return T('dirent', s.rv(obj))
            if base == 'path' or base.startswith('operator const'): return T('depath', s.rv(obj))
        if cls == 'std::fpos':
            if op == '=' or base == 'operator=': s.write(s.lv(obj), V(0), ln); return obj
            if base.startswith('operator long'): return s.rv(obj)
            if op in ('+', '-'): return add(s.rv(obj), V(0)) if op == '+' else sub(s.rv(obj), V(0))
            if op == '+=': s.write(s.lv(obj), add(s.rv(obj), V(0)), ln); return obj
        if cls == 'std::reference_wrapper':
            v = s.rv(obj)
            if base.startswith('operator') or base == 'get':
                if v.op == 'refw': return deref(v.args[0])
                return deref(T('rwptr', v))
        if cls == 'std::optional':
            pass
        if op == '=' or base == 'operator=':
            if n == 1: s.write(s.lv(obj), V(0), ln); return obj
        if name.startswith('std::complex'):
            if base == 'real' and n == 0: return s.lv(obj).sub('re')
            if base == 'imag' and n == 0: return s.lv(obj).sub('im')
        if cls.startswith('std::') and base in ('operator()',): return s.apply(s.rv(obj), args, ln, e)
        return s.fallback(name, e, obj, args, at)
    def pointee(s, a):
        """element type behind (casts to) a character pointer"""
        from interp import unq
        while True:
            t = unq(s.P.ty(a['t'])); t = unq(t[:-1]) if t.endswith('*') else t
            if t not in ('char', 'unsigned char', 'void', 'std::byte', 'unsigned long', 'long') or a['k'] != 'cast': return t
            a = a['e']
    def fileop(s, lv, F, base, e, args, V, at, ln):
        """a stream whose contents are known: F = file(entries, position); an entry is (bytes, type, value)"""
        from interp import LV, deref, padd, INTW, FLOATY, unq
        ent, pos = F.args
        def bad(why): s.unknown.append(('file', why, ln)); s.write(lv.sub('#file'), T('nofile', why), note=False)
        def put(e, p): s.write(lv.sub('#file'), T('file', e, p), note=False)
        W = dict(INTW); W.update({'float': 4, 'double': 8})
        def index_of(p):
            o = 0
            for i, (b, t, v) in enumerate(ent):
                if o == p: return i
                o += b
            return len(ent) if o == p else None
        total = sum(b for b, t, v in ent)
        if base in ('tellg', 'tellp'): s.ev(base, lv.ptr(), [], num(pos), ln); return num(pos)
        if base in ('open', 'close'): s.ev(base, lv.ptr(), [s.rv(a) for a in args], None, ln); return T('undef', 'void')
        if base in ('seekg', 'seekp'):
            c = const(V(0))
            if len(args) == 2:
                d = tm.show(V(1)); o = {'beg': 0, 'cur': pos, 'end': total}
                k = next((v for q, v in o.items() if q in d), None)
                if k is None and const(V(1)) is not None: k = {0: 0, 1: pos, 2: total}.get(int(const(V(1))))
                c = None if k is None or c is None else c + k
            s.ev(base, lv.ptr(), [s.rv(a) for a in args], None if c is None else num(c), ln)
            if c is None: bad('seek'); return None
            put(ent, int(c)); return None
        t = s.pointee(e['a'][0]); w = W.get(t, 1 if t in ('char',) else None); n = const(V(1))
        s.ev(base, lv.ptr(), [V(0), V(1)], None, ln)
        if w is None or n is None: bad('%s of %s' % (base, t)); return None
        if n == 0: return None
        if n % w or n > 4096: bad('%s of %s bytes of type %s' % (base, n, t)); return None
        p = V(0); i = index_of(pos); k = int(n / w)
        if i is None: bad('position inside a value'); return None
        def at_(j): return deref(p) if k == 1 and j == 0 else deref(padd(p, num(j)))
        if base == 'write':
            new = tuple((w, t, s.read(at_(j))) for j in range(k)); over = 0; q = i
            while over < n and q < len(ent): over += ent[q][0]; q += 1
            if over < n and q < len(ent) or over > n: bad('write across values'); return None
            put(ent[:i] + new + ent[q:], pos + int(n)); return None
        for j in range(k):
            if i + j >= len(ent): s.ev('read-past-end', lv.ptr(), [V(1)], None, ln); s.write(at_(j), T('eof', s.uid()), ln); pos += w; continue
            b, u, v = ent[i + j]
            if b != w: bad('reading %d-byte values where %d-byte values were written' % (w, b)); return None
            if (u in FLOATY) != (t in FLOATY): v = s.bits(v, u, t)
            s.write(at_(j), v, ln); pos += w
        put(ent, pos); return None
    def has(s, lv, k):
        v = s.read(lv.sub('#has').sub(k))
        if tm.isbool(v): return v
        if v.op == 'ite': return ite(v.args[0], s.tobool(v.args[1]), s.tobool(v.args[2]))
        return T('truth', v)
    def eval_args(s, A):
        for a in A: s.eval(a)
    def elsize(s, t):
        ta = s.targs(t)
        return {'char': 1, 'float': 4, 'double': 8, 'unsigned int': 4, 'unsigned long': 8, 'int': 4, 'std::byte': 1, 'unsigned char': 1}.get(ta[0].replace('const ', '') if ta else '', 1)
