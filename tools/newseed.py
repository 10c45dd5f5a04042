"""usage: newseed.py ID PROP  reads spec from stdin: python dict with edits=[(file,old,new)], demo=str, needs, breaks"""
import sys, os, json, subprocess
ID, PROP = sys.argv[1:3]
spec = eval(sys.stdin.read())
R = os.environ.get('NS_REPO', '/repo')
S = '/verif/seeded/' + ID
os.makedirs(S, exist_ok=True)
for f, old, new in spec['edits']:
    p = R + '/' + f
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, 'w').write(s.replace(old, new))
d = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
open(S + '/patch.diff', 'w').write(d)
open(S + '/demo.py', 'w').write('from dlib import *\n\n\n' + spec['demo'].lstrip('\n') + '\n\nrun(main)\n')
for n, c in spec.get('extra', {}).items():
    open(S + '/' + n, 'w').write(c)
json.dump({'property': PROP, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(S + '/meta.json', 'w'), indent=1)
