import json,sys
for c in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%c))
    for k,v in e['coverage']['spaces'].items():
        if v['wall_s']>2 or not v['complete']: print(c,k,v['executions'],v['wall_s'],v['complete'])
