#!/usr/bin/env python3
"""Decides one property of /repo by static analysis.   usage: check.py C06 [--tier quick|thorough]

Builds the analyser when needed, runs it over the witness translation units (explicit instantiations of the
containers for archetype element types) and turns its reports into the verdict for the property.
"""
import json, os, re, subprocess, sys, time, hashlib, threading
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
import plan, rules

REPO = '/repo'

def build():
    r = subprocess.run(['make', '-s', '-j8'], cwd=V, capture_output=True, text=True)
    if r.returncode: print(r.stdout + r.stderr); sys.exit('the analyser does not build')

class Pool:
    """One pool of job tokens for all analyser processes."""
    def __init__(self, n=8):
        self.r, self.w = os.pipe(); os.set_inheritable(self.r, True); os.set_inheritable(self.w, True)
        os.write(self.w, b'+' * n)
    def env(self):
        e = dict(os.environ); e['SFLSA_JOBS'] = '%d,%d' % (self.r, self.w); return e

def run_units(units, deadline, limit, tmp):
    """units: list of (witness, only-regex, extra flags)"""
    pool = Pool(); out = [None] * len(units); ths = []
    t0 = time.time()
    def go(i):
        w, only, extra = units[i]
        os.read(pool.r, 1)
        try:
            o = os.path.join(tmp, '%d.json' % i)
            left = max(5, int(deadline - (time.time() - t0)))
            cmd = [V + '/build/sflsa', V + '/witness/' + w, '--repo', REPO, '--wit', V + '/witness', '--limit', str(min(limit, plan.LIMIT.get(w, limit)) if limit <= 60 else limit), '--deadline', str(left), '-o', o] + (['--only', only] if only else []) + extra
            try:
                p = subprocess.run(cmd, env=pool.env(), pass_fds=(pool.r, pool.w), capture_output=True, text=True, timeout=left + 2 * limit + 60)
                rc, err = p.returncode, p.stderr[-1500:]
            except subprocess.TimeoutExpired: rc, err = 124, 'time limit'
            try: d = json.load(open(o)) if rc == 0 else None
            except Exception as e: d, rc, err = None, 99, str(e)
            out[i] = (rc, d, err)
        finally: os.write(pool.w, b'+')
    for i in range(len(units)):
        t = threading.Thread(target=go, args=(i,)); t.start(); ths.append(t)
    for t in ths: t.join()
    return out

def known(pid):
    ks = []
    for l in open(os.path.join(V, 'known_findings.txt')):
        l = l.strip()
        m = re.match(r'finding: property=(\S+) method=/(.*)/ kind=(\S+) (.*)$', l)
        if m and m.group(1) == pid: ks.append((re.compile(m.group(2)), m.group(3), m.group(4)))
    return ks

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time(); build()
    P = plan.PLAN[pid]
    import tempfile
    tmpd = tempfile.TemporaryDirectory(prefix='sflsa'); tmp = tmpd.name
    units = []
    for grp in P.get('units', []):
        names, only = grp[0], grp[1]; extra = list(grp[2]) if len(grp) > 2 else []
        for w in names: units.append((w, only, extra))
    seen = set(); units = [u for u in units if not ((u[0], u[1], tuple(u[2])) in seen or seen.add((u[0], u[1], tuple(u[2]))))]
    deadline = P.get('deadline', 420) if tier == 'quick' else 2400
    limit = P.get('limit', 60) if tier == 'quick' else 600
    res = run_units(units, deadline, limit, tmp) if units else []
    cov = dict(units=[], members_analysed=0, entry_states=0, exits=0, exceptional_exits=0, obligations=0, abstract_states=0, loops_generalised=0, exit_comparisons=0, undecided=0)
    viol, notconf, und, funcs, broken, unspec = [], [], [], set(), [], set()
    for (w, only, extra), (rc, d, err) in zip(units, res):
        if d is None:
            broken.append((w, rc, err)); continue
        cov['units'].append({'witness': w, 'members': len(d['results']), 'wall': round(d['wall'], 1)})
        for r in d['results']:
            cov['members_analysed'] += 0 if r.get('failed') else 1
            for a, b in (('entry_states', 'entries'), ('exits', 'exits'), ('exceptional_exits', 'exc_exits'), ('obligations', 'obligations'), ('abstract_states', 'states'), ('loops_generalised', 'loops'), ('exit_comparisons', 'compared')): cov[a] += r.get(b, 0)
            funcs.update(r['functions']); und += r['undecided']; unspec.update(r['unspecified'])
            for q in r['reports']:
                if not plan.relevant(pid, q): continue
                (viol if q['definite'] else notconf).append(q)
    for rule in P.get('rules', []):
        rv, rc = rules.run(rule, V, REPO, tmp, tier)
        for k, x in rc.items(): cov['rule_' + rule if k == 'count' else k] = x
        viol += rv
        if rc.get('broken'): broken.append((rule, 0, rc['broken']))
    # failing witnesses
    if units and len(broken) >= len(units):
        for b in broken: print('BROKEN', b)
        sys.exit(2)
    ks = known(pid); fresh, found = [], {}
    for q in viol:
        for rx, kind, text in ks:
            if rx.search(q['method'] + ' [' + q.get('entry', '') + ']') and kind == q['kind']: found[text] = q; break
        else: fresh.append(q)
    cov['undecided'] = len(und); cov['functions_analysed'] = len(funcs)
    why = {}
    for m, x in und: why.setdefault(x.split(' at ')[0], []).append(m)
    cov['undecided_obligations'] = {k: {'count': len(v), 'examples': sorted(set(v))[:6]} for k, v in sorted(why.items())}
    cov['unconfirmed_reports'] = ['%s %s [%s] %s: %s' % (q['kind'], q['method'], q['entry'], q['where'], q['msg']) for q in notconf][:20]
    cov['members_without_result_specification'] = sorted(unspec)[:40]
    cov['broken_units'] = [list(map(str, b)) for b in broken]
    cov['function_definitions'] = sorted(funcs)[:2000] if tier != 'quick' else len(funcs)
    if not units:
        for k in [k for k, v in cov.items() if not v]: del cov[k]
    cov['explanation'] = P['explain']
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=P['level'], coverage=cov,
              assumptions=P['only_assume'] if 'only_assume' in P else plan.ASSUME + P.get('assume', []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for t in sorted(found): print('KNOWN-FINDING: property=%s %s' % (pid, t))
    print('%s: %d units, %d members, %d obligations, %d undecided, %d unconfirmed, %d violations, %.1fs' % (pid, len(units), cov.get('members_analysed', 0), cov.get('obligations', 0), len(und), len(notconf), len(fresh), time.time() - t0))
    if fresh:
        rd = os.path.join(V, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        shown = set()
        for q in fresh:
            key = (q['kind'], q['method'].split(' {')[0], q.get('where'))
            if key in shown: continue
            shown.add(key)
            h = hashlib.sha1(json.dumps(q, sort_keys=True).encode()).hexdigest()[:10]
            rp = os.path.join(rd, '%s-%s.json' % (pid, h)); json.dump(q, open(rp, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, V)))
            print('  %s in %s [%s] at %s: %s%s' % (q['kind'], q['method'], q.get('entry', ''), q.get('where', ''), q['msg'], (' | e.g. ' + q['model']) if q.get('model') else ''))
            if len(shown) >= 12: break
        sys.exit(1)
    sys.exit(0)
main()
