#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decides one property on the current /repo tree"""
import signal, importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'checks')); sys.dont_write_bytecode = True
os.environ['PYTHONHASHSEED'] = os.environ.get('PYTHONHASHSEED', '0')
from common import *

# member functions of the unchanged tree that no program can call (they do not compile when instantiated); driver.cc instantiates whole classes
UNINSTANTIABLE = ("'this' argument to member function 'find_chunk_by_index' has type 'const ChunkIndex<3>'", "no member named 'CalculateShape' in 'ChunkIndex<3>'")
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module(prop.lower())
    ctx = Ctx(prop, tier)
    try:
        watchdog(ctx, 60); mod.check(ctx); signal.alarm(0)
        if not ctx.oblig and not ctx.viol: raise Broken('no obligation could be decided (undecided: %s)' % [u[0] for u in ctx.unknown][:6])
        if len(ctx.oblig) < getattr(mod, 'MIN_OBLIGATIONS', 1) and not ctx.viol: print('NOTE property=%s only %d of the usual %d obligations could be decided on this tree; undecided: %s' % (prop, len(ctx.oblig), mod.MIN_OBLIGATIONS, sorted({u[0] for u in ctx.unknown})))
    except Exception as e:
        signal.alarm(0)
        # the rest of the property stays undecided on this tree; what was decided before still counts
        why = 'analysis budget exceeded' if isinstance(e, interp.Budget) else str(e) if isinstance(e, Broken) else 'construct outside the analysis: %r' % e
        ctx.unk('analysis stopped early', why)
        if not isinstance(e, (interp.Budget, Broken)): traceback.print_exc(limit=-4)
        if not ctx.viol:
            if not ctx.oblig: print('ANALYSIS-BROKEN property=%s %s' % (prop, why)); sys.exit(2)
            print('NOTE property=%s analysis stopped early: %s' % (prop, why))
    errs = [e for e in getattr(ctx, 'errs', []) if 'error' in str(e) and not any(k in str(e) for k in UNINSTANTIABLE)]
    if errs:
        # parts of the program are missing from the typed tree: nothing definite can be said about what is left
        print('NOTE property=%s the analysis driver does not compile against this tree (%s)' % (prop, str(errs[0])[:200]))
        if not ctx.oblig: print('ANALYSIS-BROKEN property=%s' % prop); sys.exit(2)
        for v in ctx.viol: ctx.unk(v['rule'], v['detail'])
        ctx.viol = []
    # one report per rule+place
    seen = set(); viol = []
    for v in ctx.viol:
        k = (v['rule'], v['where'].rsplit(' ', 1)[-1], v['detail'][:80])
        if k not in seen: seen.add(k); viol.append(v)
    known = load_known(); new = []; knownhit = []
    for v in viol:
        m = [k for k in known if k['property'] == prop and k.get('status') == 'open' and k['rule'] == v['rule'] and k['function'] in v['where'] and k.get('match', '') in v['detail']]
        (knownhit if m else new).append((v, m[0] if m else None))
    EV = os.environ.get('EVIDENCE_DIR') or os.path.join(VERIF, 'evidence'); os.makedirs(EV, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': {'explanation': getattr(mod, '__doc__', '') or '', 'rules': sorted(set(o[0] for o in ctx.oblig)), 'obligations': len(ctx.oblig) + len(viol), 'discharged': len(ctx.oblig),
                       'undecided': len(ctx.unknown), 'undecided_list': [list(u) for u in ctx.unknown][:40], 'functions_analysed': len(ctx.funcs), 'functions': sorted(ctx.funcs)[:200],
                       'discharged_list': [[o[0], o[1][:160]] for o in ctx.oblig][:300], 'frontend_diagnostics': getattr(ctx, 'errs', [])[:20]},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + ['library calls behave as modelled in tool/models.py', 'arithmetic is exact (no rounding, no unsigned wrap-around) unless a rule says otherwise'],
          'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    for v, k in knownhit: print('KNOWN-FINDING: property=%s %s [%s at %s]' % (prop, k['what'], v['rule'], v['where']))
    if new:
        rp = os.path.join(EV, prop + '.violations.json')
        json.dump([v for v, _ in new], open(rp, 'w'), indent=1)
        for v, _ in new[:12]:
            print('%s\n    rule: %s\n    %s' % (v['where'], v['rule'], v['detail'][:1500]))
        if len(new) > 12: print('... and %d more' % (len(new) - 12))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    print('OK property=%s obligations=%d undecided=%d functions=%d wall=%.1fs' % (prop, len(ctx.oblig), len(ctx.unknown), len(ctx.funcs), time.time() - ctx.t0))
    if '-v' in sys.argv:
        for o in ctx.oblig: print('  ok ', o[0], '|', o[1][:160])
        for u in ctx.unknown: print('  ?? ', u[0], '|', u[1][:300])
main()
