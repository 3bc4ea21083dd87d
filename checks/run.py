#!/usr/bin/env python3
"""Decides one property: model-check the specification, plan scenarios with it,
run them on the code in /repo, and have TLC accept or reject what was recorded.

  run.py ID                 quick or thorough by VERIF_TIER (default quick)
  run.py ID --replay FILE   run the scenario of a reported violation again
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')
sys.path.insert(0, HERE)
from plans import PLANS
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
WORKERS = str(min(8, os.cpu_count() or 1))

class CheckError(Exception): pass

REPO = os.environ.get('REPO', '/repo')
def fresh():
    """Compilation is decided by contents: an object one of whose files changed goes, whatever the times say."""
    have = {}
    for d, sub, fs in list(os.walk(os.path.join(REPO, 'src'))) + list(os.walk(os.path.join(VERIF, 'harness'))):
        for f in fs:
            if re.search(r'(\.(cc|hh|h|c|hpp|cpp|in)|Makefile)$', f):
                have[os.path.join(d, f)] = hashlib.sha1(open(os.path.join(d, f), 'rb').read()).hexdigest()
    rec = os.path.join(BUILD, 'sources.json')
    old = json.load(open(rec)) if os.path.exists(rec) else None
    if old != have:
        gone = None if old is None else {f for f in set(old) | set(have) if old.get(f) != have.get(f)}
        for d in glob.glob(os.path.join(BUILD, 'obj', '**', '*.d'), recursive=True):
            if gone is None or any(f.endswith('Makefile') for f in gone) or any(os.path.realpath(x) in gone for x in re.findall(r'[^\s:\\]+', open(d).read())):
                o = d[:-2] + '.o'
                if os.path.exists(o): os.unlink(o)
                os.unlink(d)
        if os.path.exists(os.path.join(BUILD, 'drv')): os.unlink(os.path.join(BUILD, 'drv'))
        json.dump(have, open(rec, 'w'))

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fresh()
        r = subprocess.run(['make', '-s', '-j8', 'B=' + BUILD, 'REPO=' + REPO], cwd=os.path.join(VERIF, 'harness'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise CheckError('build failed:\n' + r.stdout[-3000:])

COUNTS = re.compile(r'(\d+) states generated, (\d+) distinct states found')
class TlcResult:
    def __init__(s, rc, out):
        s.rc, s.out = rc, out
        m = COUNTS.findall(out)
        s.generated, s.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def tlc(work, module, cfg=None, env=None, extra=(), timeout=840):
    e = dict(os.environ); e.update(env or {})
    e['VERIF_SEED'] = e.get('VERIF_SEED') or str(SEED)
    md = os.path.join(work, 'md'); shutil.rmtree(md, ignore_errors=True)
    cmd = ['tlc', '-workers', WORKERS, '-metadir', md, '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as t:
        raise CheckError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return TlcResult(r.returncode, r.stdout)

def mpi_env():
    e = dict(os.environ)
    tmp = os.path.join(BUILD, 'tmp'); os.makedirs(tmp, exist_ok=True)
    e.update(TMPDIR=tmp, OMPI_MCA_orte_tmpdir_base=tmp, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
             OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_plm='isolated',
             OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_mpi_yield_when_idle='1',
             OMPI_MCA_ess_singleton_isolated='1')
    return e

def former(sub, lines):
    """{sid: the scenario that runs before it in the same process, or in turns with it}: what happens to other meshes must not matter."""
    return {} if sub == 'error' else {i + 1: lines[i - 1] for i in range(1, len(lines), 2)}

def drive(sub, scen, trace, before, workers='8'):
    with open(scen + '.drv', 'w') as f:
        for l in open(scen).read().splitlines():
            b = before.get(json.loads(l)['sid'])
            f.write(('{"before":%s,"turns":%s,%s' % (b, 'true' if json.loads(l)['sid'] % 4 else 'false', l[1:]) if b else l) + '\n')
    r = subprocess.run([os.path.join(BUILD, 'drv'), sub, scen + '.drv', trace, workers], env=mpi_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=840)
    if r.returncode: raise CheckError('driver failed: ' + r.stdout[-2000:])

BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>\s*(?=\n[^ ]|\Z)', re.S)
def validate(work, plan, pid, scen, trace):
    """{sid: [(event, clauses)]}, and TLC's counts."""
    lines = open(scen).read().splitlines(); tr = open(trace).read().splitlines()
    found = {}; gen = dist = 0
    todo = [i for i in range(len(lines)) if not tr[i].endswith('"end":"skipped"}')]
    for attempt in range(6):
        if not todo: break
        s2, t2 = scen + '.v', trace + '.v'
        open(s2, 'w').write('\n'.join(lines[i] for i in todo) + '\n'); open(t2, 'w').write('\n'.join(tr[i] for i in todo) + '\n')
        r = tlc(work, plan['trace'], env={'SCEN': s2, 'TRACE': t2, 'PROP': pid})
        gen += r.generated; dist += r.distinct
        for sid, k, cl in BAD.findall(r.out):
            found.setdefault(int(sid), set()).add((int(k), re.sub(r'\s+', ' ', cl).replace('\\"', '').replace('"', "'")))
        if r.rc == 0 and 'Model checking completed. No error has been found' in r.out: break
        # an observation for which the specification's expressions have no value
        m = re.findall(r'^/?\\?/?\\? ?(?:/\\ )?sc = (\d+)', r.out, re.M)
        m = re.findall(r'sc = (\d+)', r.out)
        if not m: raise CheckError('trace validation failed:\n' + r.out[-4000:])
        k = todo[int(m[-1]) - 1]
        err = re.search(r'Error: (.*?)\n(?:Error: The behavior|State 1|\Z)', r.out, re.S)
        found.setdefault(json.loads(lines[k])['sid'], set()).add((0, 'not an observation the specification has: ' + re.sub(r'\s+', ' ', err.group(1) if err else '')[:600]))
        todo = [i for i in todo if i != k]
        if attempt == 5: break
    return {s: sorted(v) for s, v in found.items()}, gen, dist

def plan_round(work, plan, pid, seed, count, tag):
    scen = os.path.join(work, tag + '.scen')
    for f in glob.glob(scen + '*'): os.unlink(f)
    env = {'PROP': pid, 'SCEN': scen, 'COUNT': str(count), 'VERIF_SEED': str(seed), 'TIER': TIER}
    env.update(plan.get('env', {}))
    r = tlc(work, plan['gen'], plan.get('gencfg'), env=env, extra=plan.get('genargs', ()))
    if r.rc: raise CheckError('planning with %s failed (%d):\n%s' % (plan['gen'], r.rc, r.out[-4000:]))
    files = sorted(glob.glob(scen + '.*'), key=lambda f: [int(x) for x in re.findall(r'\d+', os.path.basename(f)[len(tag):])])
    lines = []
    for f in files:
        lines += [l for l in open(f).read().splitlines() if l.strip()]
        os.unlink(f)
    seen = set(); out = []
    for n, l in enumerate(lines):
        o = json.loads(l)
        key = json.dumps({k: v for k, v in o.items() if k != 'sid'}, sort_keys=True)
        if key in seen: continue
        seen.add(key); o['sid'] = len(out) + 1; out.append(json.dumps(o, separators=(',', ':')))
    if not out: raise CheckError('no scenario was planned')
    open(scen, 'w').write('\n'.join(out) + '\n')
    return scen, r, len(out)

def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return [k for k in json.load(open(p)).get('known', [])] if os.path.exists(p) else []

def main():
    if sys.argv[1:] == ['--setup']: build(); return 0
    pid = sys.argv[1]
    if pid not in PLANS: print('no such property', pid); return 2
    plans = PLANS[pid]
    t0 = time.time()
    build()
    work = os.path.join(BUILD, 'work', pid); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    if '--replay' in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index('--replay') + 1])); plan = plans[rp['plan']]
        scen, trace = os.path.join(work, 'replay.scen'), os.path.join(work, 'replay.trace')
        open(scen, 'w').write(json.dumps(rp['scenario']) + '\n')
        drive(plan['sub'], scen, trace, {rp['scenario']['sid']: json.dumps(rp['before'])} if rp.get('before') else {}); bad, _, _ = validate(work, plan, pid, scen, trace)
        print(json.dumps(bad, indent=1)); return 1 if bad else 0
    states = trans = traces = 0; samples = []; ops = {}; models = []; violations = []; knowns = set(); kinds = {}
    for pi, plan in enumerate(plans):
        for m in plan.get('models', []):
            if m.get('tier') == 'thorough' and TIER != 'thorough': continue
            r = tlc(work, m['module'], m.get('cfg'), env=dict({'PROP': pid, 'TIER': TIER}, **m.get('env', {})), extra=m.get('args', ()))
            if r.rc: raise CheckError('the specification violates %s:\n%s' % (m['module'], r.out[-4000:]))
            states += r.distinct; trans += r.generated
            models.append({'model': m.get('cfg') or m['module'], 'states': r.distinct, 'transitions': r.generated})
        if 'gen' not in plan: continue
        rounds, count = plan['rounds'][TIER]
        for k in range(rounds):
            tag = 'p%dr%d' % (pi, k)
            scen, r, n = plan_round(work, plan, pid, SEED + 1009 * k, count, tag)
            states += r.distinct; trans += r.generated
            trace = os.path.join(work, tag + '.trace')
            sl = open(scen).read().splitlines(); before = former(plan['sub'], sl)
            drive(plan['sub'], scen, trace, before)
            bad, g, d = validate(work, plan, pid, scen, trace)
            states += d; trans += g; traces += n
            tl = open(trace).read().splitlines()
            for l in sl:
                for o in json.loads(l).get('ops', []): ops[o.get('op', '?')] = ops.get(o.get('op', '?'), 0) + 1
            if not samples or k == 0:
                s = json.loads(sl[len(sl) // 2]); t = json.loads(tl[len(sl) // 2])
                samples.append({'scenario': json.dumps(s)[:1500], 'recorded': json.dumps(t)[:1500]})
            if bad:         # believe only what a second run repeats
                bad = dict(sorted(bad.items())[:60])
                s2, t2 = scen + '.again', trace + '.again'
                open(s2, 'w').write('\n'.join(l for l in sl if json.loads(l)['sid'] in bad) + '\n')
                drive(plan['sub'], s2, t2, before, '4')
                again, _, _ = validate(work, plan, pid, s2, t2)
                for sid in sorted(again):
                    what = again[sid]
                    hit = next((kf for kf in known() if kf['property'] == pid and all(any(c in w[1] for c in kf['clauses']) for w in what)
                                and all(x in sl[sid - 1] for x in kf.get('scenario', []))), None)
                    if hit: knowns.add('KNOWN-FINDING: property=%s %s' % (pid, hit['what'])); continue
                    rp = os.path.join(BUILD, 'replay', '%s-%s-%d.json' % (pid, tag, sid)); os.makedirs(os.path.dirname(rp), exist_ok=True)
                    json.dump({'property': pid, 'plan': pi, 'seed': SEED + 1009 * k, 'clauses': what, 'scenario': json.loads(sl[sid - 1]), 'before': json.loads(before[sid]) if sid in before else None,
                               'trace': json.loads(tl[sid - 1]), 'rerun': 'python3 checks/run.py %s --replay %s' % (pid, rp)}, open(rp, 'w'))
                    violations.append((rp, what))
            for f in glob.glob(os.path.join(work, tag + '*')): os.unlink(f)
            if violations: break
        if violations: break
    shutil.rmtree(work, ignore_errors=True)
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
          'violations': len(violations),
          'coverage': {'states': states, 'transitions': trans, 'traces_validated_against_impl': traces, 'steps_by_action': ops,
                       'models': models, 'samples': samples},
          'assumptions': ['the driver records what the public calls return; real numbers are compared after rounding to thousandths',
                          'one MPI process']}
    evd = os.path.join(BUILD if os.environ.get('VERIF_BUILD') else VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    for k in sorted(knowns): print(k)
    for rp, what in violations[:10]:
        print('  rejected: ' + '; '.join('step %d %s' % (k, c[:300]) for k, c in what[:4]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    print('%s %s: %d states, %d transitions, %d traces, %d violations, %.1f s' % (pid, TIER, states, trans, traces, len(violations), time.time() - t0))
    return 1 if violations else 0

if __name__ == '__main__':
    try: rc = main()
    except CheckError as e: print('CHECK ERROR:', e); rc = 3
    sys.exit(rc)
