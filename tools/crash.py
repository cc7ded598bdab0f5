import json,sys
for r in json.load(open('/verif/evidence/%s.replay.json'%sys.argv[1])):
    if r['signature'].startswith('crash'): print(r['data'][-3500:]); break
