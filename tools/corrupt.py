"""Development aid: corrupt one recorded event and see what the specification says (binding demonstration)."""
import sys,threading,random,json,subprocess
sys.path.insert(0,'/verif'); import check
subprocess.run(['/verif/harness/target/debug/conform','--focus','C01','--seed','3','--start','0','--count','60','--out','/tmp/corrupt.nd'])
L=open('/tmp/corrupt.nd').read().splitlines()
random.seed(int(sys.argv[1]))
# corrupt one event
idx=[i for i,l in enumerate(L) if '"rk":"arr"' in l]
i=random.choice(idx); e=json.loads(L[i]); k=random.choice(['buf','off','shape','drop','elem','n'])
if k=='buf': e['r']['b']=99
if k=='off': e['r']['o']+=1
if k=='shape': e['r']['sh']=e['r']['sh']+[2]
if k=='elem': e['q']=e['q'][:-1]
if k=='n': e['n']=[]
if k=='drop': L[i]=None
else: L[i]=json.dumps(e,separators=(',',':'))
L=[l for l in L if l]
open('/tmp/corrupt2.nd','w').write('\n'.join(L)+'\n')
r=check.Result(); check.validate('C99','RedstoneTrace','/tmp/corrupt2.nd',r,threading.Lock())
print(k,e['op'],i,r.issues[:4],r.unevaluated)
