"""P34: separate objects share no mutable state. Every object with static storage duration that the type-checked program declares (globals, static members,
function-local statics, in every instantiation) is listed with all its uses; a use that changes it after its initialisation is a violation unless the
object is thread-local or of a synchronising type, or the change is made under a lock. Calls that change settings of the whole process are violations too."""
import common
from common import *
TECHNIQUE = 'effect analysis: uses of objects with static storage duration in the type-checked program, process-wide effects of called routines'
SYNC = re.compile(r'\b(atomic|mutex|shared_mutex|recursive_mutex|once_flag|condition_variable)')
# routines that change state of the whole process
GLOBAL = {'chdir', 'fchdir', 'umask', 'setenv', 'putenv', 'unsetenv', 'setlocale', 'strtok', 'srand', 'srandom', 'srand48', 'asctime', 'ctime', 'localtime', 'gmtime', 'tmpnam', 'fesetround', 'fesetenv', 'std::locale::global', 'std::ios_base::sync_with_stdio', 'drand48', 'lrand48'}
def check(ctx):
    P = ctx.program('driver.cc'); R = 'no mutable state outside of the objects'; seen = {}
    for s in P.d['statics']:
        s['file'] = re.sub(r'^.*?(?=eisvogel/|extern/)', '', s['file']); seen.setdefault((s['file'], s['ln'], re.sub(r'<.*>', '', s['n'])), []).append(s)
    for (file, ln, n), L in sorted(seen.items()):
        if not file.startswith('eisvogel/'): continue
        s = L[0]; t = P.ty(s['t']); what = '%s %s (%s:%d)' % (t[:60], n, file, ln)
        m = re.match(r'(?:const )?std::(?:shared|unique)_ptr<(.*)>$', t) or re.match(r'(.*?)\s*\*(?: ?const)?$', t)
        if m and not m.group(1).startswith('const ') and not m.group(1).endswith(' const') and '(' not in m.group(1) and not s['tls'] and not SYNC.search(t):
            # what it points to is reachable from everywhere
            w = [x for q in L for x in q['writes'] if not x['locked']]
            if w: ctx.violation(R, '%s:%d %s' % (file, w[0]['ln'], w[0]['fn'][:120]), '%s points to storage that all objects and threads share, used at line %d' % (what, w[0]['ln']))
            else: ctx.ok(R, what)
            continue
        if s['const'] or s['tls'] or SYNC.search(t): ctx.ok(R, what); continue
        w = [x for q in L for x in q['writes'] if not x['read']]; hard = [x for x in w if not x['unsure'] and not x['locked']]
        if hard: ctx.violation(R, '%s:%d %s' % (file, hard[0]['ln'], hard[0]['fn'][:120]), '%s is shared by all objects and threads and changed at line %d' % (what, hard[0]['ln']))
        elif w: ctx.unk(R, what)
        else: ctx.ok(R, what)
    for f in P.d['funcs']:
        if not f['file'].startswith('eisvogel/'): continue
        ctx.funcs.add(f['qn'][:160]); bad = [c for c in callees(P, f) if c in GLOBAL or c.replace('std::', '') in GLOBAL]
        for part in ('body', 'inits'):
            for y in common._walkj(f.get(part) or []):
                if y.get('k') == 'call' and 'filesystem::current_path' in str(y.get('fn')):
                    g = [a for a in y.get('a', y.get('args', [])) if a]
                    if g and 'error_code' not in P.ty(g[0].get('t', -1)): bad.append('std::filesystem::current_path to change the current directory')
        for c in bad: ctx.violation('no settings of the whole process are changed', f, 'calls ' + c)
        if not bad: ctx.ok('no settings of the whole process are changed', f['qn'][:100])
    if len(P.d['funcs']) < 300: raise Broken('program not extracted')
    ctx.rule = 'no writable object outlives or is shared between the objects of the library'
