"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE); import mkprops
NA = {
 'P33': 'numerical accuracy over a continuum of arguments: no dataflow or value-numbering argument bounds the truncation and rounding error of the series/continued fraction',
 'P35': 'the code makes no claim of crash atomicity (index and chunks are rewritten in place), so there is no ordering in the source that a static rule could enforce; as stated the property does not hold by design',
}
TECH = {}
def main():
    checks = []; na = []
    for p in mkprops.P:
        i = p['id']; f = os.path.join(V, 'checks', i.lower() + '.py')
        if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
        if not os.path.exists(f): na.append({'property': i, 'reason': 'no static check has been built for it (yet); the rule would be a value-graph comparison like the claimed ones'}); continue
        src = open(f).read(); doc = src.split('"""')[1].replace('\n', ' ').strip()
        t = [l for l in src.splitlines() if l.startswith('TECHNIQUE')]
        tech = t[0].split('=', 1)[1].strip().strip('\'"') if t else 'gated value-graph dataflow (value numbering) compared with a reference term'
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': tech, 'level': 'other', 'level_note': 'static analysis: ' + doc})
    m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'Every check re-extracts the type-checked program from /repo\'s working tree with tool/extract (clang AST) and decides its rules on gated value graphs; nothing of /repo is executed.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'na')
main()
