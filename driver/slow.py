import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for k,v in sorted(e['coverage']['explorations'].items(), key=lambda x:-x[1].get('cpu_s',0))[:14]:
    print(v.get('cpu_s'),v.get('processes'),v.get('evaluations'),k)
