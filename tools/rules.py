"""Rules decided on the syntax tree or by the type checker (no abstract interpretation)."""
import json, os, subprocess

def run(rule, V, repo, tmp, tier):
    return RULES[rule](V, repo, tmp, tier)

def rep(kind, method, where, msg):
    return dict(kind=kind, method=method, entry='', where=where, msg=msg, model='', definite=True, exceptional=False, alias=False, path=[])

def scan(V, repo, tmp, tier):
    o = os.path.join(tmp, 'scan.json')
    p = subprocess.run([V + '/build/sflsa', V + '/witness/scan_all.cpp', '--scan', '--repo', repo, '--wit', V + '/witness', '-o', o], capture_output=True, text=True, timeout=300)
    if p.returncode: return [], {'count': {}, 'broken': p.stderr[-500:]}
    d = json.load(open(o)); found = d.pop('found')
    return [rep('const-write', f['rule'], f['where'], f['what']) for f in found], {'count': d}

def noexc(V, repo, tmp, tier):
    """Every header without exceptions: no try or throw left, and accepted by the compilers with exceptions disabled."""
    o = os.path.join(tmp, 'scan2.json')
    p = subprocess.run([V + '/build/sflsa', V + '/witness/scan_all.cpp', '--scan', '-DSFL_NO_EXCEPTIONS', '--repo', repo, '--wit', V + '/witness', '-o', o], capture_output=True, text=True, timeout=300)
    if p.returncode: return [], {'count': {}, 'broken': p.stderr[-500:]}
    d = json.load(open(o)); out = [rep('exceptions', f['rule'], f['where'], f['what']) for f in d['found'] if f['rule'] == 'exceptions']
    base = lambda cc, st, w: (cc, [cc, '-std=' + st, '-fsyntax-only', '-w', '-fno-exceptions', '-DSFL_NO_EXCEPTIONS', '-I' + repo + '/include', '-I' + V + '/witness', V + '/witness/' + w])
    jobs = []
    for cc in ('g++', 'clang++'):
        for st in ('c++11', 'c++14', 'c++17', 'c++20'):
            jobs.append(base(cc, st, 'scan_all.cpp'))
        jobs.append((cc, jobs[-1][1] + ['-DNDEBUG']))
        for w in sorted(os.listdir(V + '/witness')):
            if w.startswith('w_') and w.endswith('.cpp') and not any(x in w for x in ('_al', '_thr', '_0', '_ct')): jobs.append(base(cc, 'c++17', w))
    for (cc, cmd), (rc, err) in zip(jobs, compile_all([c for _, c in jobs])):
        if rc: out.append(rep('exceptions', 'compile', first_error(err, repo), 'does not compile with exceptions disabled (%s): %s' % (' '.join(cmd[:2]), err_text(err))))
    return out, {'count': {'functions': d['functions'], 'try_or_throw_left': d['try_or_throw'], 'compilations': len(jobs)}}

def compile_all(cmds, n=8):
    from concurrent.futures import ThreadPoolExecutor
    def one(c):
        try: p = subprocess.run(c, capture_output=True, text=True, timeout=300); return p.returncode, p.stderr
        except subprocess.TimeoutExpired: return 0, ''
    with ThreadPoolExecutor(n) as ex: return list(ex.map(one, cmds))

def err_text(err):
    for l in err.splitlines():
        if ' error: ' in l: return l.split(' error: ', 1)[1][:300]
    return err[:300]

def first_error(err, repo):
    import re
    ls = err.splitlines()
    for l in ls:
        m = re.search(re.escape(repo) + r'/(include/\S+?:\d+)', l)
        if m: return m.group(1)
    for l in ls:
        if ' error: ' in l: return os.path.basename(l.split(' error: ')[0])
    return ''

RULES = {'scan': scan, 'noexc': noexc}

STDS = ('c++11', 'c++14', 'c++17', 'c++20')
def witnesses(V, repo, names, jobs_of, kind, what):
    jobs = []
    for w in names:
        for cc, st in jobs_of: jobs.append((w, [cc, '-std=' + st, '-fsyntax-only', '-w', '-I' + repo + '/include', '-I' + V + '/witness', V + '/witness/' + w] + (['-ferror-limit=0'] if cc == 'clang++' else [])))
    out, seen = [], set()
    for (w, cmd), (rc, err) in zip(jobs, compile_all([c for _, c in jobs])):
        if not rc: continue
        for text, where in errors(err, repo):
            if (w, text, where) in seen: continue
            seen.add((w, text, where)); out.append(rep(kind, w, where, '%s (%s): %s' % (what, ' '.join(cmd[:2]), text)))
    return out, len(jobs)

def errors(err, repo):
    """(message, place) of each error; the place is the innermost line of the headers involved."""
    import re
    ls, res = err.splitlines(), []
    for i, l in enumerate(ls):
        m = re.match(r'(\S+?:\d+)(:\d+)?: (?:fatal )?error: (.*)', l)
        if not m: continue
        where = m.group(1)
        if not where.startswith(repo):
            near = [x for x in ls[max(0, i - 12):i] + ls[i + 1:i + 12] if re.search(re.escape(repo) + r'/include/\S+?:\d+', x)]
            if near: where = re.search(re.escape(repo) + r'/(include/\S+?:\d+)', near[0]).group(1)
            else: where = os.path.basename(where)
        else: where = where[len(repo) + 1:]
        res.append((m.group(3)[:300], where))
        if len(res) >= 5: break
    return res or [(err[:300], '')]

def minimal(V, repo, tmp, tier):
    names = sorted(w for w in os.listdir(V + '/witness') if w.startswith('m_'))
    cfg = [('g++', s) for s in STDS] + [('clang++', s) for s in STDS] if tier != 'quick' else [('g++', 'c++11'), ('g++', 'c++20'), ('clang++', 'c++11'), ('clang++', 'c++17'), ('clang++', 'c++20'), ('g++', 'c++14')]
    out, n = witnesses(V, repo, names, cfg, 'compile', 'a documented use does not compile')
    uses = sum(l.startswith('void f') for w in names for l in open(V + '/witness/' + w))
    return out, {'count': {'client_functions': uses, 'translation_units': len(names), 'compilations': n}}

def traits(V, repo, tmp, tier):
    out, n = witnesses(V, repo, ['t_traits.cpp'], [(c, s) for c in ('g++', 'clang++') for s in STDS], 'overload', 'overloads or conversions differ from the documentation')
    uses = sum(l.startswith('static_assert') for l in open(V + '/witness/t_traits.cpp'))
    return out, {'count': {'static_assertions': uses, 'compilations': n}}
RULES.update(minimal=minimal, traits=traits)
