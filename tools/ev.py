import json,sys
for c in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%c)); v=e['coverage']; print(c,e['wall_s'])
    for k in ('evaluations','distinct_nontrivial','faults_injected','reached','simulator_events','determinism','distinct_interleavings','scheduler_decisions','simulated_seconds'): print('  ',k,v[k])
