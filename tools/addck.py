import json,sys
p='/verif/checks/'+sys.argv[1]
try: d=json.load(open(p))
except FileNotFoundError: d={}
d.update(json.load(sys.stdin)); json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
