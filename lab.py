import json,sys
for p in sys.argv[1:]:
    e=json.load(open(f'evidence/{p}.json'))
    for k,v in e['coverage']['searches'].items(): print(p,k,v['evaluations'],v['distinct_nontrivial'],v['labels'],v['max_shard_wall_s'])
