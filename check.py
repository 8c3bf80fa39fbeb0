#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on /repo's current working tree.
check.py --replay FILE                re-executes the history a violation was reported for.
Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.  Other: the check itself failed."""
import sys, os, re, json, time, glob, subprocess, tempfile, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import build as B
KNOWN = os.path.join(VERIF, 'known_findings.txt')
SUITE = re.compile(r'^SUITE(?:_B)?\(\s*"(C\d+)",\s*(\w+),\s*"(\w+)",\s*(BOTH|QUICK|THOROUGH)', re.M)

def suites(prop, tier):
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.cc'))):
        for m in SUITE.finditer(open(f).read()):
            if m.group(1) == prop and (m.group(4) == 'BOTH' or m.group(4).lower() == tier): out.append((m.group(2), m.group(3)))
    return out

def levels():
    p = os.path.join(VERIF, 'tools', 'checks.json')
    return json.load(open(p))

def run(prop, tier):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ss = suites(prop, tier)
    if not ss: print('no suite for', prop); return 2
    variants = sorted(set(v for _, v in ss))
    total = 780.0 if tier == 'quick' else 6 * 3600.0
    scratch = tempfile.mkdtemp(prefix='mc.' + prop + '.', dir=os.environ.get('TMPDIR', '/tmp'))
    res = []; fails = []; known = []; err = None
    try:
        for v in variants:
            binp = B.build(v, prop)
            left = total - (time.time() - t0)
            if left < 5: err = 'out of time'; break
            out = os.path.join(scratch, v + '.json'); rep = os.path.join(scratch, v + '.replay.json')
            cmd = [binp, '--prop', prop, '--tier', tier, '--variant', v, '--out', out, '--scratch', scratch, '--known', KNOWN, '--replay-out', rep, '--workers', '8']
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=scratch, start_new_session=True)
            try: so, se = p.communicate(timeout=left)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.communicate(); err = 'suite group %s did not finish in time' % v; break
            for l in so.splitlines():
                if l.startswith('KNOWN-FINDING:'): known.append(l)
            sys.stderr.write(se[-6000:])
            if p.returncode not in (0, 1): err = 'harness ended with %s\n%s' % (p.returncode, se[-1500:]); break
            res += json.load(open(out))
            if p.returncode == 1:
                rd = os.path.join(VERIF, 'replays'); os.makedirs(rd, exist_ok=True)
                dst = os.path.join(rd, '%s-%s.json' % (prop, tier)); shutil.copy(rep, dst); fails.append(dst); break
    except RuntimeError as e: err = 'build failed: ' + str(e)[:3000]
    finally: shutil.rmtree(scratch, ignore_errors=True)
    for l in sorted(set(known)): print(l)
    meta = levels().get(prop, {})
    level = meta.get('level', 'model_checking')
    cov = {}
    S = lambda k: int(sum(r.get(k, 0) for r in res))
    samples = [x for r in res for x in r['samples'][:3]][:8] or ['(none)']
    if level == 'model_checking':
        cov.update(states=S('states'), transitions=S('transitions'), traces_validated_against_impl=S('traces'))
    else:
        cov.update(evaluations=max(S('evaluations'), S('cases')), distinct_nontrivial=S('states'),
                   rule=meta.get('rule', 'one evaluation is one execution of the real server in one enumerated environment; distinct and non-trivial: executions whose enumerated choice differs and was actually taken, counted by hash'))
        cov.update(transitions=S('transitions'))
    cov['samples'] = samples
    cov['exhaustive'] = bool(res) and not any(r['truncated'] for r in res) and not fails
    cov['suites'] = [{k: r[k] for k in ('suite', 'variant', 'cases', 'states', 'transitions', 'traces', 'evaluations', 'truncated', 'wall', 'bounds')} for r in res]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=meta.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if fails:
        r = json.load(open(fails[0])); print('%s: %s [%s]' % (r['suite'], r['message'][:1500], r['key']))
        for l in r['history'][-30:]: print('   ', l[:300])
        print('VIOLATION property=%s replay=%s' % (prop, fails[0])); return 1
    if err: print('check error:', err); return 2
    print('%s %s: held (%d states, %d transitions, %d executions, %.0f s)%s' % (prop, tier, S('states'), S('transitions'), S('traces') + S('evaluations'), time.time() - t0, '' if cov['exhaustive'] else ' [some suites stopped at their time budget, see the evidence file]'))
    return 0

def replay(f):
    r = json.load(open(f)); binp = B.build(r['variant'], r['property']); sc = tempfile.mkdtemp(prefix='mcreplay.')
    a = ['--case', str(r['case'])] if r['reproduced_by'] != 'shard' else ['--shard', '%d:%d' % (r['worker'], r['case'])]
    p = subprocess.run([binp, '--prop', r['property'], '--tier', r['tier'], '--variant', r['variant'], '--suite', r['suite'], '--scratch', sc, '--known', KNOWN] + a)
    shutil.rmtree(sc, ignore_errors=True); return p.returncode

if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
