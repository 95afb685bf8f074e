"""Runs the extractor on the current /repo tree and returns the program model.

A scratch copy of the sources is parsed (never /repo in place) because two constructs that gcc
accepts need a spelling clang accepts:  `X::template f(args)` with no template argument list, and
`constexpr` variables initialised with <cmath> calls.  Both rewrites keep line numbers and meaning.
"""
import json, os, re, shutil, subprocess, sys, tempfile, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('EISVOGEL_REPO', '/repo')
SUBDIRS = ['eisvogel', 'extern']

def _copy(dst):
    for sd in SUBDIRS:
        src = os.path.join(REPO, sd)
        for d, ds, fs in os.walk(src):
            ds[:] = [x for x in ds if not x.startswith('.')]
            for f in fs:
                if f.endswith(('.hh', '.hxx', '.h', '.hpp', '.cpp', '.cxx', '.cc')):
                    p = os.path.join(d, f); q = os.path.join(dst, os.path.relpath(p, REPO))
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    t = open(p, errors='replace').read()
                    t = re.sub(r'::\s*template\s+(\w+)\s*\(', r'::\1(', t)
                    open(q, 'w').write(t)

def _run(drv, root, out):
    inc = ['-I%s/eisvogel/core' % root, '-I%s/eisvogel/core/impl' % root, '-I%s/extern/utilities' % root]
    sp = os.path.join(root, 'extern/shower_profile')
    for d in ('shower_1D', 'shower_creator', 'environment', 'charge_excess_profile'):
        inc.append('-I%s/%s' % (sp, d))
    inc += ['-I%s/extern/corsika/include' % root, '-I%s/extern/corsika/impl' % root]
    cmd = [os.path.join(HERE, 'extract'), out, root, '--', drv, '-std=c++20', '-Wno-c++11-narrowing'] + inc + ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    return [l for l in r.stderr.splitlines() if ' error: ' in l or 'fatal error' in l]

def extract(driver):
    """-> (model dict, list of parse errors with paths relative to the repo)"""
    subprocess.run([os.path.join(HERE, 'build.sh')], check=True, stdout=subprocess.DEVNULL)
    tmp = tempfile.mkdtemp(prefix='evx_')
    try:
        root = os.path.join(tmp, 'r'); _copy(root)
        drv = os.path.join(root if 'probe' in os.path.basename(driver) else tmp, os.path.basename(driver)); shutil.copy(driver, drv)      # probe functions of a driver are analysed themselves
        out = os.path.join(tmp, 'o.json')
        for _ in range(6):
            errs = _run(drv, root, out)
            fix = [l for l in errs if 'must be initialized by a constant expression' in l]
            if not fix: break
            for l in fix:
                m = re.match(r'(.*?):(\d+):\d+: error: constexpr', l)
                if not m: continue
                f, n = m.group(1), int(m.group(2)); ls = open(f).read().split('\n')
                ls[n-1] = re.sub(r'\bconstexpr\b', 'const', ls[n-1]); open(f, 'w').write('\n'.join(ls))
        d = json.load(open(out))
        rel = lambda p: os.path.relpath(p, root) if p.startswith(root) else p
        for f in d['funcs'] + d['records']: f['file'] = rel(f['file'])
        errs = [rel(e) if not e.startswith(root) else e.replace(root + '/', '') for e in errs]
        return d, errs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
