import json,sys
d=json.load(open(f'{sys.argv[2] if len(sys.argv)>2 else "/verif/evidence"}/{sys.argv[1]}.json'))['coverage']
for n,c in sorted(d['cases'].items(),key=lambda x:-x[1]['wall_s']): print(f"{n:28s} paths={c['paths']:5d} checks={c['checks']:5d} q={c['queries']:6d} solver={c['solver_s']:7.2f} wall={c['wall_s']:7.2f}")
print(len(d['functions_encoded']),'functions', d['witness_replays'])
