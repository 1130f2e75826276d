#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--entry NAME] : decide one property on /repo's current tree."""
import sys, os, json, time, re, hashlib, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/vp')
import core
from props import PROPS
V = core.V

def main():
    a = sys.argv[1:]; pid = a[0]; tier = 'quick'; only = None; strict = False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--entry': only = a[i + 1]; i += 2
        elif a[i] == '--strict': strict = True; i += 1
        else: sys.exit(2)
    P = PROPS[pid]; t0 = time.time()
    known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == pid and k['status'] == 'known']
    try:
        core.ensure_engine(); core.bc_repo(); core.bc_rt()
        mods = {}
        for h in sorted({e['file'] for e in P['entries']}): mods[h] = None
        with cf.ThreadPoolExecutor(4) as ex:
            for h, m in zip(mods, ex.map(core.bc_module, list(mods))): mods[h] = m
    except core.BuildError as e:
        print('CHECK-ERROR property=%s cannot build: %s' % (pid, e)); sys.exit(2)
    t_build = time.time() - t0
    odir = core.BUILD + '/out/%s.%d' % (pid, os.getpid()); os.makedirs(odir, exist_ok=True)
    rdir = V + '/evidence/replay'; os.makedirs(rdir, exist_ok=True)
    jobs = []
    for e in P['entries']:
        if only and e['name'] != only: continue
        if e.get('tier') == 'thorough' and tier != 'thorough': continue
        if e.get('tier') == 'quickonly' and tier != 'quick': continue
        jobs.append(e)
    jobs.sort(key=lambda e: -e.get('weight', 1))
    def runone(e):
        params = dict(e.get('params', {}));
        if tier == 'thorough': params.update(e.get('tparams', {}))
        opts = list(e.get('opts', []))
        if tier == 'thorough' and 'topts' in e: opts = list(e['topts'])
        for k, v in params.items(): opts += ['-P', '%s=%d' % (k, v)]
        lim = e.get('ttime', 1500) if tier == 'thorough' else e.get('time', 240)
        opts += ['--time', str(lim), '--max-viol', '4']
        j = core.engine(mods[e['file']], e.get('entry', e['name']), opts, '%s/%s.json' % (odir, e['name']), lim * 2 + 120)
        return e, params, opts, j
    with cf.ThreadPoolExecutor(core.JOBS) as ex:
        res = list(ex.map(runone, jobs))
    viol = 0; ev = []; incon = []; samples = []; fns = set(); nv = []
    tot = dict(paths=0, queries=0, solver=0.0, checks=0, insts=0, forks=0, sched=0, csolver=0)
    shown = set()
    for e, params, opts, j in res:
        if 'error' in j:
            incon.append('%s: %s' % (e['name'], j['error'])); ev.append({'entry': e['name'], 'error': j['error']}); continue
        tot['paths'] += j['paths_complete']; tot['queries'] += j['queries']; tot['solver'] += j['solver_seconds']; tot['checks'] += j['checks']; tot['insts'] += j['instructions']
        tot['forks'] += j['forks']; tot['sched'] += j['sched_points']; tot['csolver'] += j['checks_symbolic']
        fns.update(j['functions'])
        why = []
        if j['incomplete']: why += ['%s (x%d)' % kv for kv in list(j['incomplete'].items())[:3]]
        if j['timed_out']: why.append('time limit')
        if j['queries_unknown']: why.append('%d solver unknowns' % j['queries_unknown'])
        miss = [l for l in e.get('reach', ['end']) if l not in j['reached']]
        if miss and not j['violations']: why.append('never reached: ' + ','.join(miss))
        if why and not j['violations']: incon.append('%s: %s' % (e['name'], '; '.join(why)))
        ent = {'entry': e['name'], 'what': e.get('what', ''), 'bounds': e.get('bounds', ''), 'params': params, 'options': ' '.join(opts), 'complete': not why, 'why_incomplete': why,
               'paths': j['paths_complete'], 'paths_excluded_by_assumption': j['paths_assumed_away'], 'forks': j['forks'], 'instructions': j['instructions'], 'scheduling_points': j['sched_points'],
               'assertions_evaluated': j['checks'], 'assertions_decided_by_query': j['checks_symbolic'], 'assertion_kinds': j['check_messages'], 'queries': j['queries'], 'queries_sat': j['queries_sat'], 'queries_unsat': j['queries_unsat'],
               'cache_hits': j['query_cache_hits'] + j['model_reuse_hits'], 'solver_seconds': round(j['solver_seconds'], 3), 'max_query_seconds': round(j['max_query_seconds'], 3), 'seconds': round(j['seconds'], 2), 'witnesses_reached': j['reached']}
        vs = []
        for v in j['violations']:
            kf = next((k for k in known if k['entry'] == e['name'] and k['kind'] == v['kind'] and re.search(k['msg'], v['msg']) and re.search(k.get('at', ''), v['loc'] + ' ' + v['stack'])), None)
            if kf:
                if kf['id'] not in shown: print('KNOWN-FINDING: property=%s %s' % (pid, kf['what'])); shown.add(kf['id'])
                continue
            h = hashlib.sha1((e['name'] + v['kind'] + v['msg'] + v['loc']).encode()).hexdigest()[:8]
            rp = '%s/%s_%s_%s.txt' % (rdir, pid, e['name'], h)
            core.write_replay(rp, v, params)
            with open(rp, 'a') as f:
                f.write('# harness %s entry %s\n# engine options: %s\n# stack: %s\n' % (e['file'], e['name'], ' '.join(opts), v['stack'].replace('\n', ' | ')))
            outcome, txt = 'engine', ''
            if not e.get('mt'):
                try: outcome, txt = core.native_replay(e['file'], e.get('entry', e['name']), rp)
                except core.BuildError as x: outcome, txt = 'error', str(x)[-1500:]
                with open(rp, 'a') as f: f.write('# native replay: %s\n%s\n' % (outcome, '\n'.join('#   ' + l for l in txt.splitlines()[:60])))
            vs.append({'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'native_replay': outcome, 'replay': rp})
            if outcome in ('passed', 'diverged') and v['kind'] in ('check', 'abort', 'exception') and not e.get('trust'):
                incon.append('%s: counterexample "%s" did not reproduce natively (%s); not reported' % (e['name'], v['msg'], outcome)); continue
            viol += 1
            print('  %s: %s: %s' % (e['name'], v['kind'], v['msg'])); print('    at %s' % v['loc']); print('    inputs %s' % (v['inputs'][:24],)); print('    replay against native build: %s' % outcome)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            nv.append(vs[-1])
        ent['violations'] = vs; ev.append(ent)
        for m in list(j['check_messages'])[:2]: samples.append('%s: "%s" evaluated on %d paths' % (e['name'], m, j['check_messages'][m]))
    for s in incon: print('INCONCLUSIVE property=%s %s' % (pid, s))
    wall = time.time() - t0
    repofns = sorted(fns)
    doc = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': P['level'],
           'coverage': {'explanation': 'Bounded symbolic execution of the LLVM bitcode compiled from /repo\'s current sources; every path within the bounds is explored, every branch and assertion on symbolic data is decided by z3 for all values of the path.',
                        'assertions_evaluated': tot['checks'], 'samples': samples[:12] or ['none'],
                        'queries_discharged': tot['queries'], 'solver_seconds': round(tot['solver'], 3), 'assertions_decided_by_query': tot['csolver'], 'paths': tot['paths'], 'forks': tot['forks'], 'scheduling_points': tot['sched'], 'instructions': tot['insts'],
                        'functions_encoded': repofns, 'functions_encoded_count': len(repofns), 'harnesses': ev, 'inconclusive': incon, 'build_seconds': round(t_build, 1)},
           'wall_s': round(wall, 2), 'assumptions': P.get('assumptions', []) + core.ASSUMPTIONS, 'violations': nv if nv else 0}
    doc['violations'] = len(nv)
    doc['coverage']['violation_list'] = nv
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(doc, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    import shutil; shutil.rmtree(odir, ignore_errors=True)
    print('property=%s tier=%s harnesses=%d paths=%d assertions=%d queries=%d solver=%.1fs functions=%d wall=%.1fs %s' % (pid, tier, len(res), tot['paths'], tot['checks'], tot['queries'], tot['solver'], len(repofns), wall, 'VIOLATED' if viol else ('held (some harnesses inconclusive)' if incon else 'held')))
    if viol: sys.exit(1)
    if strict and incon: sys.exit(3)
    sys.exit(0)
main()
