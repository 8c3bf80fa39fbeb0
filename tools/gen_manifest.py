#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/checks.json from properties.jsonl and the suites present in harness/*.cc."""
import json, os, re, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = ('exhaustive operation-sequence exploration of the real server (closed simulation) in lock step with a reference model',
       'model_checking', 'Every sequence/grid point within the stated bounds is executed on the real server code compiled from /repo (sockets, clock, threads and item memory under harness control) and every reply compared with the reference model. Trusted: the reference model (harness/model.cc), the simulated OS layer (harness/sim.cc); values outside the alphabets are not covered.')
SCHED = ('stateless exploration of all thread schedules up to a preemption bound on the real code under a controlled scheduler',
         'model_checking', 'All schedules with at most the stated number of preemptions, at every lock, condition, I/O and event point (sequentially consistent memory), are executed on the real server; outcomes are checked against all sequential orders of the reference model.')
FAULT = ('exhaustive fault-point enumeration on the real code against a reference model', 'fault_enumeration',
         'Every fault point of every listed history is enumerated (one execution of the real server each) and the result compared with the reference model. Trusted: harness/sim.cc, harness/vfs.cc, harness/model.cc.')
KIND = {p: SEQ for p in ['C%02d' % i for i in range(1, 44)]}
for p in ('C18', 'C28', 'C35', 'C41', 'C42'): KIND[p] = SCHED
for p in ('C17', 'C22', 'C23', 'C33', 'C29'): KIND[p] = FAULT
NA = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'notes.py')) else None
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = set()
for f in glob.glob(os.path.join(V, 'harness', '*.cc')): have |= set(re.findall(r'^SUITE(?:_B)?\(\s*"(C\d+)"', open(f).read(), re.M))
checks = []; na = []; meta = {}
for p in props:
    i = p['id']
    if i in have:
        t, lv, note = KIND[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=t, level=lv, level_note=note))
        meta[i] = dict(level=lv)
    else: na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet (nothing is claimed); see DESIGN.md')))
sha = subprocess.run("git -C /repo log --format='%H %s'", shell=True, capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in sha.splitlines() if l.split(' ', 1)[1].startswith('hook:')]
m = dict(version=1, setup_cmd='bash tools/setup.sh', hooks=dict(guard='ARCUS_MC_HOOKS', enable='-DARCUS_MC_HOOKS -DARCUS_MC_BTREE_ITEM_COUNT=4 -DARCUS_MC_HASHCHAIN_SIZE=2 [-DARCUS_MC_LOG_BUFFER_SIZE=4096 -DARCUS_MC_LOG_FLUSH_SIZE=128 -DARCUS_MC_CMDLOG_BUFFER_SIZE=2048] (harness/build.py, variants small, asmall, persist, psmall, tsan)', source_commits=hooks),
         checks=checks, not_applicable=na, notes='Every check rebuilds the server sources from /repo into /verif/build (git-ignored) and runs them inside one process under a simulated OS; replay a violation with: python3 check.py --replay <file>.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
json.dump(meta, open(os.path.join(V, 'tools', 'checks.json'), 'w'), indent=1); open(os.path.join(V, 'tools', 'checks.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
