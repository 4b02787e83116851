import json,re,collections
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
M=collections.defaultdict(list)
for i,p in re.findall(r"^bug\('([^']+)', '([^']+)'",open('/verif/tools/mutants.txt').read(),re.M): M[p].append(i)
import glob
S=collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    S[json.load(open(f))['property']].append(f.split('/')[-2])
exec(open('/verif/tools/design_txt.py').read())
out=open('/verif/tools/design_head.md').read()
for p in props:
    i=p['id']
    d=D[i]
    ev=json.load(open('/verif/evidence/%s.json'%i))
    cov=ev['coverage']
    out+='### %s %s\n\n'%(i,p['title'])
    out+=d[0].strip()+'\n\n'
    out+='*Analysed:* %d roots, %d obligations on the current tree (%s).\n'%(len(cov.get('roots_analysed',[])),cov['obligations'],', '.join('%s %d'%(k,v) for k,v in cov['obligations_per_rule'].items()))
    if len(d)>1 and d[1]: out+='*Assumed / limits:* %s\n'%d[1].strip()
    out+='*Planted bugs caught:* %s\n\n'%('; '.join(S[i]+['('+', '.join(M[i])+')'] if M[i] else S[i]) or 'none of its own')
out+=open('/verif/tools/design_tail.md').read()
open('/verif/DESIGN.md','w').write(out)
