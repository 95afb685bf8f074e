"""Shared machinery of the per-property checks."""
import gc, struct, signal, json, os, re, sys, time, pickle, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'tool'))
import frontend, interp, decide
import terms as tm
from terms import T, num, ZERO, ONE, TRUE, FALSE, const, add, sub, mul, div, neg, ite, andb, orb, notb, eqt, minmax
from interp import Interp, Program, LV, walk, walk_exits, dump, deref, padd, pdiff, proj, unq, strip_ta, mk_obj_raw

class Broken(Exception):
    """the analysis could not find its anchor: neither pass nor violation"""

class Ctx:
    entry_limit = 300     # seconds for the analysis of one entry function
    time_limit = 400      # seconds for the items of a parallel sweep
    def __init__(s, prop, tier):
        s.prop = prop; s.tier = tier; s.t0 = time.time(); s.viol = []; s.oblig = []; s.unknown = []; s.funcs = set(); s.notes = []; s.assumptions = []
        s.sites = 0; s.known = []
    # ---- program
    def program(s, driver='driver.cc'):
        d, errs = frontend.extract(os.path.join(VERIF, 'tool', driver))
        s.errs = errs
        s.P = Program(d); s.index(); return s.P
    def index(s): pass
    def fn(s, qs, pred=None, need=True, all=False):
        fs = s.P.find(qs, pred)
        if not fs and need: raise Broken('anchor not found: ' + qs)
        return fs if all else (fs[0] if fs else None)
    def where(s, f, ln=None): return '%s:%s %s' % (f['file'], ln if ln is not None else f['ln'], f['qs'])
    def run(s, f, policy=None, argvals=None, this=None, I=None, **k):
        I = I or Interp(s.P, policy, **k)
        if I.deadline is None: I.deadline = time.time() + s.entry_limit
        nodes, v = I.entry(f, argvals, this)
        for i in I.analysed: s.funcs.add(s.P.F[i]['qn'][:160])
        I.nodes = nodes; I.ret = v; I.rvret = I.rv(v) if v is not None else None
        return I
    # ---- verdicts
    def violation(s, rule, f, detail, ln=None):
        w = s.where(f, ln) if isinstance(f, dict) else str(f)
        s.viol.append({'rule': rule, 'where': w, 'detail': detail})
    def ok(s, rule, what=''): s.oblig.append((rule, what, True))
    def unk(s, rule, what): s.unknown.append((rule, what))
    def require(s, rule, f, verdict, detail, ln=None):
        """verdict True/False/None"""
        if verdict is True: s.ok(rule, detail)
        elif verdict is False: s.violation(rule, f, detail, ln)
        else: s.unk(rule, detail)
        return verdict
    def equal(s, rule, f, got, spec, detail='', ln=None, **k):
        v = decide.same(got, spec, **k)
        if v is False:
            s.violation(rule, f, '%s: computes %s, must be %s (they differ e.g. at %s)' % (detail, tm.show(got)[:400], tm.show(spec)[:400], json.dumps(dict(list(getattr(decide.same, 'witness', {}).items())[:8]))), ln)
        elif v is True: s.ok(rule, detail)
        else: s.unk(rule, detail + ': ' + tm.show(got)[:200])
        return v
    def atleast(s, what, n, k):
        if n < k: raise Broken('only %d instances of %s found (expected at least %d)' % (n, what, k))

def watchdog(ctx, extra=0):
    """ends the analysis (with what was decided so far) before the time for a check is over"""
    def late(*_): signal.alarm(10); raise Broken('out of time')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(1, int(ctx.t0 + ctx.time_limit * (1 if ctx.tier == 'quick' else 4) + 60 + extra - time.time())))
def parallel(ctx, items, fn, jobs=None):
    """fn(item) for every item, in several processes; verdicts of all of them end up in ctx"""
    items = list(items); jobs = jobs or int(os.environ.get('EISVOGEL_JOBS', '0')) or min(8, os.cpu_count() or 1)
    if jobs < 2 or len(items) < 4:
        jobs = 1
    sys.stdout.flush(); kids = []; gc.collect(); gc.freeze(); gc.set_threshold(50000, 20, 50)
    queue = None
    if len(items) < 15000:          # the next item goes to whoever is free
        queue, qw = os.pipe(); os.write(qw, b''.join(struct.pack('i', i) for i in range(len(items)))); os.close(qw)
    def mine(j):
        if queue is None: yield from items[j::jobs]; return
        while True:
            b = os.read(queue, 4)
            if len(b) < 4: return
            yield items[struct.unpack('i', b)[0]]
    for j in range(jobs):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(r); n = [len(ctx.viol), len(ctx.oblig), len(ctx.unknown)]; err = None
            try:
                ctx.entry_limit = 30; k = 0; watchdog(ctx)
                for x in mine(j):
                    if len(ctx.viol) - n[0] >= 20: break                    # enough to report
                    if time.time() > ctx.t0 + ctx.time_limit * (1 if ctx.tier == 'quick' else 2): raise Broken('out of time')
                    try: fn(x)
                    except (interp.Budget, RecursionError): ctx.unk('analysis of one case', 'budget exceeded: %s' % str([y for y in x if not isinstance(y, dict)] if isinstance(x, tuple) else '')[:200]); k += 1
                    if k >= 8 : raise Broken('analysis budget exceeded')
            except Broken as e: err = ('broken', str(e))
            except BaseException as e: err = ('other', repr(e))
            try: signal.alarm(0)
            except BaseException: signal.alarm(0)
            with os.fdopen(w, 'wb') as o: pickle.dump((ctx.viol[n[0]:], ctx.oblig[n[1]:], ctx.unknown[n[2]:], ctx.funcs, err), o)
            os._exit(0)
        os.close(w); kids.append((pid, r))
    errs = []
    if queue is not None: os.close(queue)
    for pid, r in kids:
        with os.fdopen(r, 'rb') as i: b = i.read()
        os.waitpid(pid, 0)
        if not b: errs.append(('other', 'a worker process ended early')); continue
        v, o, u, fs, e = pickle.loads(b)
        ctx.viol += v; ctx.oblig += o; ctx.unknown += u; ctx.funcs |= fs
        if e: errs.append(e)
    if errs: raise Broken(errs[0][1])

def opaque(*names):
    """policy: the named functions (qualified, template args stripped) are events, everything else is inlined"""
    S = set(names)
    def pol(f):
        q = f['qs']
        if q in S: return 'opaque'
        for n in S:
            if n.endswith('*') and q.startswith(n[:-1]): return 'opaque'
        return 'inline'
    return pol

def events(nodes, *names):
    return [n for n in walk(nodes) if n.kind == 'ev' and (not names or n.name in names or any(x.endswith('*') and n.name.startswith(x[:-1]) for x in names))]
def stores(nodes): return [n for n in walk(nodes) if n.kind == 'st']
def comps(v, n, *pre):
    """components pre[0..n) of an aggregate value"""
    return [proj(v, tuple(pre) + (num(i),)) for i in range(n)]
def vec(v, i): return proj(v, ('m_data', num(i)))
def argc(i, *path): return T('ld', T('arg', i), tuple(num(p) if isinstance(p, int) else p for p in path))
def thisf(*path): return T('ld', T('this'), tuple(num(p) if isinstance(p, int) else p for p in path))

def plain(*ts, ops=('mu', 'lexit', 'ret', 'hv', 'fold', 'call', 'cbret'), memo=None):
    """the terms with every loop-carried or opaque quantity (outermost ones) replaced by a symbol of its own"""
    m = {} if memo is None else memo
    def go(t, seen):
        if t in seen or t in m: return
        seen.add(t)
        if t.op in ops: m[t] = T('sym', 'p:' + t.op, t.uid); return
        for a in t.args: st(a, seen)
    def st(a, seen):
        if isinstance(a, T): go(a, seen)
        elif isinstance(a, tuple):
            for x in a: st(x, seen)
    for t in ts: go(t, set())
    r = [tm.subst(t, m) for t in ts]
    return r[0] if len(r) == 1 else r
def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

# ---- syntactic call graph (resolved callees) of the extracted program
def _walkj(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y; st.extend(y.values())
        elif isinstance(y, list): st.extend(y)
def callee_ids(P, f):
    if '_callees' in f: return f['_callees']
    out = set(); f['_callees'] = out
    for part in ('body', 'inits'):
        for y in _walkj(f.get(part) or []):
            if y.get('k') in ('call', 'ctor', 'fref') and y.get('f') is not None: out.add((y['f'], strip_ta(y.get('fn', '?'))))
            elif y.get('k') == 'lambda':
                for i in [y.get('f')] + list(y.get('specs', [])):
                    if i in P.F: out |= callee_ids(P, P.F[i])
    return out
def callees(P, f): return {n for _, n in callee_ids(P, f)}
def cells(I, worker, make_args, ln):
    """one generic iteration of an index loop whose cells are symbolic"""
    c = T('truth', T('nondet', I.uid()))
    I.generic_loop(lambda: c, lambda: I.apply(worker, make_args(), ln), lambda: None, ln, False)
    return T('undef', 'void')
def reach(P, f):
    """ids of all functions reachable from f"""
    out = set(); w = [f]
    while w:
        g = w.pop()
        for i, _ in callee_ids(P, g):
            if i in P.F and i not in out: out.add(i); w.append(P.F[i])
    return out
def loop_leaves_early(L):
    """the loop body can leave the loop other than through its condition (break / return to an outer frame / throw)"""
    inner = {n.label for n in walk(L.body) if n.kind in ('call', 'loop', 'block')}
    for x in walk_exits(L.body):
        if x.what in ('return', 'break') and x.label not in inner and x.label != L.label: return True
    return L.breaks
def iterate(L, t, k, memo=None):
    """t at iteration k of loop L (a number): the recurrences of the loop are applied k times to their start values"""
    memo = {} if memo is None else memo
    def state(j):
        if j in memo: return memo[j]
        if j == 0: r = {c[2]: c[0] for c in L.carried_keys.values()}
        else:
            p = state(j - 1); r = {c[2]: tm.subst(tm.subst(c[1], {L.K: num(j - 1)}), p) for c in L.carried_keys.values()}
        memo[j] = r
        return r
    return tm.subst(tm.subst(t, {L.K: num(k)}), state(k))
