import json, subprocess, sys
# usage: fixed.py C07 "what failed"   (records HEAD of /repo)
k = json.load(open('/verif/known_findings.json'))
h = subprocess.run("git -C /repo log --format=%h -1", shell=True, text=True, capture_output=True).stdout.strip()
k['fixed'].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
open('/verif/known_findings.json', 'w').write('{"findings": ' + json.dumps(k['findings'], indent=1) + ',\n "fixed": [\n' + ',\n'.join('  ' + json.dumps(x) for x in k['fixed']) + '\n ]}\n')
