# addfixed.py PROP "fix: subject" "what failed"
import json,subprocess,sys
p='/verif/known_findings.json'; d=json.load(open(p))
log={s.split(' ',1)[1]:s.split(' ',1)[0] for s in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()}
e=f"fixed: property={sys.argv[1]} {log[sys.argv[2]]} {sys.argv[3]}"
if e not in d['fixed']: d['fixed'].append(e)
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
