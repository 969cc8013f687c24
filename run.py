#!/usr/bin/env python3
"""run.py PROPERTY: decide one property of /repo from its current source."""
import sys, os, json, subprocess, tempfile, shutil, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, ROOT)
import build, props
def known(pid):
    """known-findings.txt: 'finding: property=<id> rule=<rule> where=<function> what=<text>'"""
    out = []
    for l in open(ROOT + '/known-findings.txt'):
        l = l.strip()
        if not l.startswith('finding:'): continue
        d = {}; body = l[len('finding:'):].strip()
        for k in ('property', 'rule', 'where', 'what'):
            i = body.find(k + '=')
            if i < 0: break
            j = min([x for x in (body.find(' ' + n + '=', i) for n in ('rule', 'where', 'what')) if x > 0] or [len(body)])
            d[k] = body[i + len(k) + 1:j].strip()
        if d.get('property') == pid: out.append(d)
    return out
def main():
    pid = sys.argv[1]; P = props.PROPS[pid]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'): tier = 'quick'
    r = subprocess.run(['make', '-s', '-C', ROOT + '/cx', 'OUT=' + ROOT + '/build', '-j8'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) if os.makedirs(ROOT + '/build', exist_ok=True) is None else None
    if r.returncode: print(r.stdout[-2000:]); print('ERROR: analyser does not build'); return 3
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='cx_%s_' % pid); viols = []; incon = []; cov = {}; expl = []
    try:
        if P.get('drivers'):
            bc = build.build(tmp, P['drivers'])
            args = [ROOT + '/build/cx', bc, '--prop', pid, '--out', tmp + '/o.json', '--timeout', '700' if tier == 'quick' else '3000'] + P.get('args', []) + P.get('args_' + tier, [])
            rr = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if rr.returncode not in (0, 1, 2): print(rr.stdout[-2000:]); print('ERROR: analyser failed'); return 3
            d = json.load(open(tmp + '/o.json'))
            for v in d['violations']: viols.append(dict(driver=v[0], cell=v[1], rule=v[2], loc=v[3], msg=v[4], stack=v[5]))
            for v in d['inconclusive']: incon.append('%s cell %s: %s' % (v[0], v[1], v[2]))
            if d['workers_failed'] and not incon: incon.append('worker failed')
            cov.update(entry_points=len(d['drivers']), input_classes=d['cells'], abstract_states=d['partitions'], joins=d['merges'], abstract_instructions=d['instructions'],
                       obligations_checked=sum(o['checked'] for o in d['obligations'].values()), obligation_sites={k: o['sites'] for k, o in d['obligations'].items()},
                       functions_analysed=sorted(f for f in d['functions'] if f and not f.startswith('cx_') and not f.startswith('_')))
            if d['nviol'] > len(viols): cov['violations_not_listed'] = d['nviol'] - len(viols)
        for rule in P.get('rules', []):
            res = rule(build.REPO, tmp)   # dict(name, instances=[...], violations=[dict], explanation)
            cov.setdefault('rules', {})[res['name']] = dict(instances=len(res['instances']), rule=res.get('rule', ''), sample=[str(x) for x in res['instances'][:12]])
            if len(res['instances']) < res.get('min', 1): incon.append('rule %s matches %d instances, fewer than the %d confirmed by hand' % (res['name'], len(res['instances']), res.get('min', 1)))
            for v in res['violations']: v.setdefault('driver', res['name']); v.setdefault('cell', '0'); v.setdefault('stack', ''); v.setdefault('rule', res['name']); viols.append(v)
    except RuntimeError as e:
        print(str(e)); print('ERROR: cannot build the module for analysis'); return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kn = known(pid); new = []; seen = {}
    for v in viols:
        hit = None
        for k in kn:
            if k.get('rule') == v['rule'] and k.get('where') and (k['where'] == v['loc'].split(':')[0] or k['where'] in [x.strip().split(' ')[0] for x in v['stack'].split('<-')]): hit = k
        if hit: seen[hit['what']] = hit
        else: new.append(v)
    for w in seen: print('KNOWN-FINDING: property=%s %s' % (pid, w))
    cov['explanation'] = P['explanation']
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'other'), coverage=cov, assumptions=props.ASSUME + P.get('assume', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open('%s/evidence/%s.json' % (ROOT, pid), 'w'), indent=1)
    rep = '%s/evidence/%s.report.txt' % (ROOT, pid)
    with open(rep, 'w') as f:
        for v in new: f.write('%s: %s\n  obligation: %s\n  path: %s\n  entry: %s, input class %s\n' % (v['loc'], v['msg'], v['rule'], v['stack'], v['driver'], v['cell']))
        for i in incon: f.write('undecided: %s\n' % i)
    if new:
        g = {}
        for v in new: g.setdefault((v['loc'], v['msg']), v)
        for (loc, msg), v in list(g.items())[:12]: print('%s: %s [%s] path: %s' % (loc, msg, v['rule'], v['stack'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rep)); return 1
    if incon:
        for i in incon[:10]: print('UNDECIDED ' + i)
        return 2
    print('OK property=%s: %s classes, %s obligations, %.1f s' % (pid, cov.get('input_classes', 0), cov.get('obligations_checked', 0) + sum(x['instances'] for x in cov.get('rules', {}).values()), time.time() - t0))
    return 0
if __name__ == '__main__':
    try: sys.exit(main())
    except Exception: traceback.print_exc(); sys.exit(3)
