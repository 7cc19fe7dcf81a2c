#!/usr/bin/env python3
# Builds /verif/seeded/<id>/ from seeds.py and confirms each planted change:
# builds, passes the fast tests, demo passes on the unchanged tree, fails with it.
import sys,os,subprocess,json,shutil,tempfile
here=os.path.dirname(os.path.abspath(__file__)); out='/verif/seeded'
sys.path.insert(0,here)
import seeds
env=dict(os.environ)
def sh(c,cwd=None,t=900): return subprocess.run(['bash','-c','. /opt/vp/env.sh; '+c],cwd=cwd,capture_output=True,text=True,timeout=t)
FAST='^Test(BN254MultiScalarMul|BigMod|CheckOnCurveCircuit|Circuit|CompileCircuit|HexToBase|Keccak256Circuit|Kyc|MsmSolve|MultiScalarMul|OnBn254|OnCurve|PairingCheckTestSolve|Sha2Circuit|Sha3|SqueezeChallenge)$'
ids=sys.argv[1:] or list(seeds.S)
for i in ids:
    s=seeds.S[i]
    wt=tempfile.mkdtemp(prefix='seed-',dir='/tmp')+'/repo'
    subprocess.run(['cp','-a','/repo',wt],check=True)
    try:
        for f,a,b in s['edits']:
            p=wt+'/'+f; x=open(p).read()
            assert x.count(a)==1,(i,f,x.count(a),a)
            open(p,'w').write(x.replace(a,b))
        sh('gofmt -l .',wt)
        d=out+'/'+i
        os.makedirs(d,exist_ok=True)
        diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
        shutil.copy(here+'/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
        shutil.copy(here+'/lib_test.go.txt',d+'/lib_test.go')
        open(d+'/demo_test.go','w').write(s['demo'].lstrip())
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        r=sh('go build -o /dev/null ./... ',wt); 
        msg=[]
        if r.returncode: msg.append('BUILD '+r.stderr[-400:])
        r=sh("go test -vet=off -count=1 -run '%s' . "%FAST,wt)
        if r.returncode: msg.append('TESTS '+r.stdout[-600:])
        r=sh('bash '+d+'/demo.sh',wt)
        if r.returncode==0: msg.append('demo passes with the change')
        w=r.stdout[-700:]
        r=sh('bash '+d+'/demo.sh','/repo')
        if r.returncode!=0: msg.append('demo fails on unchanged '+r.stdout[-900:])
        print(i,'OK' if not msg else msg,'| with change:',w.strip().replace('\n',' / ')[:260],flush=True)
    finally:
        shutil.rmtree(os.path.dirname(wt))
