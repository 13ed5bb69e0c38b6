#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [-v]
Decides one property: builds bitcode of /repo's current tree, runs the symbolic
executor on every harness entry registered for the property, replays every
counterexample natively against the real code, and writes evidence."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vlib'))
import build
from registry import PROPS

VERIF = build.VERIF


def known_findings(prop):
    """known: lines carry a JSON object naming the entry and the failing behaviour; fixed: lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'):
                d = json.loads(l[6:])
                if d['property'] == prop:
                    out.append(d)
    return out


def native_run(prog, rec, params, tmp, limit, want_obs=False):
    """Replay one recorded assignment natively.  Returns (outcome, detail, obs)."""
    inp = os.path.join(tmp, 'in'); ob = os.path.join(tmp, 'obs'); rs = os.path.join(tmp, 'res')
    for f in (ob, rs):
        if os.path.exists(f):
            os.unlink(f)
    with open(inp, 'w') as f:
        for n, v in rec['inputs']:
            f.write('%s %d\n' % (n.replace(' ', '_'), v))
    env = dict(os.environ)
    env.pop('TPTP', None)
    for k, v in params.items():
        env['SXP_' + k] = str(v)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=97:detect_stack_use_after_return=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=96'
    try:
        r = subprocess.run([prog, inp, ob, rs], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=limit, cwd=tmp)
        rc, err = r.returncode, r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', 'native run exceeded %ds' % limit, []
    obs = []
    if os.path.exists(ob):
        obs = [int(x) for x in open(ob).read().split()]
    res = open(rs).read().strip() if os.path.exists(rs) else ''
    if rc == 99:
        return 'assert', res[7:], obs
    if rc == 98:
        return 'exit', 'unexpected program exit; ' + err[-300:], obs
    if rc == 97 or rc == 96:
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*)', err)
        return 'sanitizer', m.group(1) if m else err[-300:], obs
    if rc < 0:
        return 'signal', 'signal %d' % -rc, obs
    if rc in (76, 77):
        return 'diverged', res + ' ' + err[-200:], obs
    if rc != 0:
        return 'rc', 'exit status %d %s' % (rc, err[-200:]), obs
    return 'ok', res, obs


BAD = ('assert', 'exit', 'sanitizer', 'signal', 'timeout', 'rc')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[a.prop]
    t0 = time.time()
    entries = [e for e in P['entries'] if not a.only or e['entry'] == a.only]
    if a.tier == 'quick':
        entries = [e for e in entries if not e.get('thorough_only')]
    os.makedirs(build.WORK, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run-', dir=build.WORK)
    replays = os.path.join(VERIF, '.work', 'replays')
    os.makedirs(replays, exist_ok=True)
    rep = {'entries': []}
    viol, known, errors, unconf = [], [], [], []
    totals = dict(paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, cached=0, solver_s=0.0, asserts=0)
    funcs, samples, validated, incomplete = set(), [], 0, []
    kf = known_findings(a.prop)
    try:
        vs_ = sorted(set(e.get('variant', 'fo') for e in entries))
        build.prebuild([(v, False) for v in vs_])
        eng = build.engine()
        # overall budget of the quick tier, shared by the entries
        budget = P.get('budget', {}).get(a.tier, 240 if a.tier == 'quick' else 3000)
        tstart = time.time()
        for i, e in enumerate(entries):
            var, har, ent = e.get('variant', 'fo'), e['harness'], e['entry']
            params = dict(e.get('params', {}))
            if a.tier == 'thorough':
                params.update(e.get('thorough', {}))
            defs, wraps = e.get('defs', ()), e.get('wraps', ())
            mod = build.module(har, var, defs, wraps)
            left = budget - (time.time() - tstart)
            lim = min(e.get('limit', {}).get(a.tier, 100 if a.tier == 'quick' else 1200), max(10, left))
            od = os.path.join(tmp, '%02d-%s' % (i, ent))
            os.makedirs(od)
            cmd = [eng, '--bc', mod, '--entry', ent, '--out', od, '--jobs', str(build.NPROC), '--timeout', str(int(lim)),
                   '--samples', str(e.get('samples', 6)), '--seed', str(seed), '--maxinstr', str(e.get('maxinstr', 20000000))]
            for k, v in params.items():
                cmd += ['--param', '%s=%d' % (k, v)]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=lim + 120)
            sj = os.path.join(od, 'summary.json')
            if not os.path.exists(sj):
                errors.append('%s: engine gave no summary (rc %d): %s' % (ent, r.returncode, r.stdout[-500:]))
                continue
            S = json.load(open(sj))
            for k in totals:
                totals[k] += S[k]
            funcs |= set(re.sub(r'\.\d+$', '', f) for f in S['functions'])
            miss = [l for l in e.get('reach', []) if not S['reach'].get(l)]
            info = {'entry': ent, 'harness': har, 'build': var, 'bounds': params, 'complete': S['complete'],
                    'paths': S['paths'], 'queries': S['queries'], 'sat': S['sat'], 'unsat': S['unsat'],
                    'answered_from_cache': S['cached'], 'unknown': S['unknown'],
                    'solver_s': round(S['solver_s'], 2), 'wall_s': S['wall_s'], 'assertions_checked': S['asserts'],
                    'reach': S['reach'], 'unsupported': S['unsupported'], 'unsupported_first': S['unsupported_first']}
            if S['crashed'] and not S['violations']:
                errors.append('%s: engine worker crashed: %s' % (ent, r.stdout[-400:]))
            if not S['complete']:
                incomplete.append(ent)
            if miss and S['complete'] and not S['violations']:
                errors.append('%s: vacuous, never reached %s' % (ent, miss))
            # replay counterexamples
            vs = sorted(f for f in os.listdir(od) if f.startswith('viol-'))
            seen, nconf = {}, 0
            for f in vs:
                rec = json.load(open(os.path.join(od, f)))
                key = rec['msg']
                if seen.get(key, 0) >= 3 or nconf >= 6:
                    continue
                seen[key] = seen.get(key, 0) + 1
                nl = e.get('native_limit', 20)
                out = native_run(build.native(har, ent, var, False, defs, wraps), rec, params, od, nl)
                if out[0] not in BAD or out[0] == 'diverged':
                    out2 = native_run(build.native(har, ent, var, True, defs, wraps), rec, params, od, nl * 3)
                    if out2[0] in BAD:
                        out = out2
                if out[0] in BAD:
                    nconf += 1
                    what = '%s: %s [%s: %s]' % (ent, rec['msg'], out[0], out[1])
                    hit = [k for k in kf if k['entry'] == ent and re.search(k['match'], what)]
                    rp = os.path.join(replays, '%s-%s-%d.json' % (a.prop, ent, len(viol)))
                    if hit:
                        if hit[0] not in known:
                            known.append(hit[0])
                    else:
                        json.dump({'property': a.prop, 'harness': har, 'entry': ent, 'variant': var, 'params': params,
                                   'msg': rec['msg'], 'where': rec['where'], 'inputs': rec['inputs'],
                                   'native': out[0], 'detail': out[1]}, open(rp, 'w'), indent=1)
                        viol.append((rp, what))
                else:
                    unconf.append('%s: %s at %s (native: %s %s)' % (ent, rec['msg'], rec['where'], out[0], out[1]))
            # validate the encoding: explored paths replayed natively must give the same observations
            ss = sorted(f for f in os.listdir(od) if f.startswith('sample-'))
            if ss and not viol:
                prog = build.native(har, ent, var, False, defs, wraps)
                for f in ss[:8]:
                    rec = json.load(open(os.path.join(od, f)))
                    out = native_run(prog, rec, params, od, 60)
                    if out[0] == 'ok' and out[2] == rec['obs']:
                        validated += 1
                    elif out[0] == 'ok' or out[0] == 'diverged':
                        errors.append('%s: engine and native run disagree on %s: %s vs %s %s' % (ent, rec['inputs'][:12], rec['obs'][:12], out[2][:12], out[1]))
                    elif out[0] == 'timeout':
                        errors.append('%s: native run of an explored path timed out' % ent)
                    elif any(k['entry'] == ent and re.search(k['match'], str(out[1])) for k in kf):
                        pass    # a listed finding
                    else:   # the real code fails on a solver-chosen input (e.g. behaviour depending on stray memory)
                        rp = os.path.join(replays, '%s-%s-%d.json' % (a.prop, ent, len(viol)))
                        json.dump({'property': a.prop, 'harness': har, 'entry': ent, 'variant': var, 'params': params,
                                   'msg': 'native run fails', 'inputs': rec['inputs'], 'native': out[0], 'detail': out[1]}, open(rp, 'w'), indent=1)
                        viol.append((rp, '%s: native run of an explored path: %s %s' % (ent, out[0], out[1])))
                        break
                    if len(samples) < 12:
                        samples.append({'entry': ent, 'inputs': rec['inputs'][:40], 'observed': rec['obs'][:20]})
            rep['entries'].append(info)
            if a.v:
                print(json.dumps(info)[:600], file=sys.stderr)
            if viol and a.tier == 'quick':
                break
    except build.BuildError as x:
        errors.append('build: %s' % x)
    wall = time.time() - t0
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': P.get('level', 'model_checking'),
          'coverage': {
              'states': totals['paths'], 'transitions': totals['forks'] + totals['asserts'],
              'traces_validated_against_impl': validated, 'samples': samples[:12],
              'exhaustive': not incomplete and not errors,
              'incomplete_entries': incomplete,
              'method': 'symbolic execution of the LLVM bitcode of /repo (regenerated this run); every branch, address and assertion over symbolic data decided by Z3',
              'queries': totals['queries'], 'queries_sat': totals['sat'], 'queries_unsat': totals['unsat'],
              'queries_cached': totals['cached'], 'solver_s': round(totals['solver_s'], 2),
              'assertions_checked': totals['asserts'], 'instructions': totals['instructions'],
              'functions_encoded': sorted(funcs), 'entries': rep['entries'], 'source_key': build.source_key(),
              'unconfirmed': unconf[:10], 'errors': errors[:10]},
          'assumptions': P.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    for u in unconf[:5]:
        print('unconfirmed (not reported as violation): %s' % u)
    print('%s %s: %d paths, %d queries (%.1fs solver), %d assertions, %d native replays agree, %s, %.1fs' % (
        a.prop, a.tier, totals['paths'], totals['queries'], totals['solver_s'], totals['asserts'], validated,
        'complete within bounds' if not incomplete else 'INCOMPLETE: ' + ','.join(incomplete), wall))
    if viol:
        for rp, what in viol:
            print('VIOLATION property=%s replay=%s' % (a.prop, rp))
            print('  ' + what[:600])
        return 1
    if errors:
        for x in errors:
            print('ERROR: ' + x[:3000])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
