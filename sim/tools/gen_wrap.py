#!/usr/bin/env python3
"""Generate wrapper manifests (wrap/<crate>/Cargo.toml): each compiles the *real* sources of one
repository crate from /repo against the simulation substrate."""
import os,tomllib,glob,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W=os.path.join(R,'wrap')
REPO='/repo'
local={}
for pat in ('shim/*/Cargo.toml','shim/facade/*/Cargo.toml','vendor/*/Cargo.toml'):
    for f in glob.glob(os.path.join(R,pat)):
        local[tomllib.load(open(f,'rb'))['package']['name']]=os.path.dirname(f)
local['scale-info']=os.path.join(R,'shim/scale-info')
REAL={'serde':'serde = { version = "1", features = ["derive"] }','serde_json':'serde_json = "1"','log':'log = "0.4"','hex':'hex = "0.4"','sha2':'sha2 = "0.10"','futures':'futures = "0.3"','parking_lot':'parking_lot = "0.12"','thiserror':'thiserror = "1"','proc-macro2':'proc-macro2 = "1.0"','quote':'quote = "1.0"'}
SKIP={'frame-benchmarking','frame-try-runtime','seed-runtime','seed-client','substrate-test-runtime-client','sc-network-test','tokio','jsonrpsee','sc-rpc'}
ws=tomllib.load(open(REPO+'/Cargo.toml','rb'))['workspace']['dependencies']
paths=sys.argv[1:] or [os.path.dirname(f)[len(REPO)+1:] for f in sorted(glob.glob(REPO+'/pallet/*/Cargo.toml')+[REPO+'/primitives/Cargo.toml',REPO+'/ethy-gadget/Cargo.toml']+glob.glob(REPO+'/evm-precompiles/*/Cargo.toml')+[REPO+'/evm-precompiles/utils/macro/Cargo.toml'])]
info={}
for p in paths:
    c=tomllib.load(open(f'{REPO}/{p}/Cargo.toml','rb'))
    info[c['package']['name']]=(p,c)
missing=set()
def dep(k,v,me):
    pk=k
    if isinstance(v,dict) and v.get('workspace'):
        w=ws.get(k,{}); 
        if isinstance(w,dict) and 'package' in w: pk=w['package']
    elif isinstance(v,dict) and 'package' in v: pk=v['package']
    if pk in SKIP: return None
    feats=[f for f in (v.get('features',[]) if isinstance(v,dict) else []) if f not in('runtime-benchmarks',)]
    if pk in info and pk!=me:
        fs=f', features = {feats}'.replace("'",'"') if feats else ''
        return f'{k} = {{ path = "../{pk}"{fs} }}'
    if k=='codec' or pk=='parity-scale-codec': return 'codec = { package = "parity-scale-codec", path = "../../shim/codec" }'
    if pk in REAL: return REAL[pk]
    if pk=='syn': return 'syn = { path = "../../vendor/syn-1.0.109", features = ["extra-traits", "fold", "full", "visit"] }'
    if pk=='typenum': return None
    if pk in local:
        n=tomllib.load(open(local[pk]+'/Cargo.toml','rb'))['package']['name']
        rel=os.path.relpath(local[pk],os.path.join(W,me))
        if '/vendor/' in local[pk]: return f'{k} = {{ path = "{rel}", default-features = false }}'
        return f'{k} = {{ path = "{rel}" }}'
    missing.add((me,k)); return None
for n,(p,c) in info.items():
    d=os.path.join(W,n); os.makedirs(d,exist_ok=True)
    t=f'[package]\nname = "{n}"\nversion = "0.0.0"\nedition = "2021"\nautotests = false\nautobenches = false\nautoexamples = false\n'
    t+=f'[lib]\npath = "{REPO}/{p}/src/lib.rs"\ndoctest = false\n'
    if c.get('lib',{}).get('proc-macro'): t+='proc-macro = true\n'
    t+='[features]\ndefault = ["std"]\n'
    fe=set(c.get('features',{}))|{'std','runtime-benchmarks','try-runtime'}
    fe.discard('default')
    for f in sorted(fe):
        t+=f'{f} = []\n'
    t+='[lints.rust]\nunexpected_cfgs = "allow"\n'
    deps={}
    for k,v in c.get('dependencies',{}).items():
        x=dep(k,v,n)
        if x: deps[k]=x
    if n.startswith('pallet') or n in('seed-pallet-common','precompile-utils'):
        for k in('frame-support','frame-system','codec'):
            if k not in deps: deps[k]=dep(k,{},n)
    t+='[dependencies]\n'+'\n'.join(deps[k] for k in sorted(deps))+'\n'
    dd={}
    for k,v in c.get('dev-dependencies',{}).items():
        if k in deps: continue
        x=dep(k,v,n)
        if x: dd[k]=x
    if dd: t+='[dev-dependencies]\n'+'\n'.join(dd[k] for k in sorted(dd))+'\n'
    f=d+'/Cargo.toml'
    if not os.path.exists(f) or open(f).read()!=t: open(f,'w').write(t)
for m in sorted(missing): print('missing',m)
