#!/usr/bin/env python3
"""Mutation campaign (development tool): mutates /repo's library in scratch
copies, keeps the mutants that pass the stable tests, and runs the checks,
shortened, on those. Usage: mutate.py OUTDIR [--files a,b] [--workers N]"""
import os,re,subprocess,json,sys,threading,queue,shutil,random,time
OUT=sys.argv[1]; os.makedirs(OUT,exist_ok=True)
W=4; FILES=None; LIMIT=None
for i,a in enumerate(sys.argv):
    if a=='--workers': W=int(sys.argv[i+1])
    if a=='--files': FILES=sys.argv[i+1].split(',')
    if a=='--limit': LIMIT=int(sys.argv[i+1])
REPO='/tmp/mut/base' # a clean copy
# These need data that is not in this sandbox.
BASEBAD={'superblock::tests::'+x for x in 'test_bad_superblock_checksum test_blocks_per_group_zero test_invalid_inode_size test_no_checksum_seed test_superblock test_unknown_incompat_flags test_too_many_block_groups'.split()}|{'tests::test_invalid_ext4_data','tests::test_load_errors'}
def sources():
    r=[]
    for d,_,fs in os.walk(REPO+'/src'):
        for f in fs:
            p=os.path.relpath(os.path.join(d,f),REPO)
            if f in('test_util.rs','error.rs','format.rs'): continue
            r.append(p)
    return sorted(r)
RULES=[
 (r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),
 (r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r' % ',' / '),(r' && ',' || '),(r' \|\| ',' && '),
 (r' \+= ',' -= '),(r'if !','if '),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\bcontinue;','break;'),(r'\bbreak;','continue;'),
 (r' \| ',' & '),(r' & ',' | '),(r'<< ','>> '),(r'>> ','<< '),(r'\.min\(','.max('),(r'\.max\(','.min('),
 (r'from_le_bytes','from_be_bytes'),(r'from_be_bytes','from_le_bytes'),(r'read_u32le','read_u32be'),
 (r'\.\.=','..'),(r'is_some\(\)','is_none()'),(r'is_none\(\)','is_some()'),
 (r'checked_add','checked_sub'),(r'checked_sub','checked_add'),(r'saturating_sub','wrapping_sub'),
]
def mutants():
    ms=[]
    for f in sources():
        if FILES and not any(x in f for x in FILES): continue
        L=open(f'{REPO}/{f}').read().split('\n')
        end=len(L)
        for i,l in enumerate(L):
            if l.strip()=='#[cfg(test)]' and i+1<len(L) and L[i+1].startswith('mod '): end=i;break
        for i in range(end):
            l=L[i]; s=l.strip()
            if not s or s.startswith(('//','#[','use ','pub use','///','assert','debug_assert')): continue
            code=l.split(' // ')[0]
            if s.startswith(('fn ','pub fn','pub(crate) fn','impl','struct','enum','where')): continue
            for a,b in RULES:
                for m in re.finditer(a,code):
                    if '<' in a and re.search(r'[A-Za-z]<[^ ]',code) and a.strip() in('<<','>>'): pass
                    n=code[:m.start()]+b+code[m.end():]
                    ms.append((f,i,[n],f'{a.strip()} -> {b.strip()}'))
            # constants
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.]|\.\d)',code):
                v=int(m.group(1).replace('_',''),0)
                for d in ((1,) if v==0 else (1,-1)):
                    n=code[:m.start()]+hex(v+d)+code[m.end():]
                    ms.append((f,i,[n],f'const {m.group(1)} {d:+d}'))
            # statements
            if s.endswith(';') and not s.startswith(('let ','return','}','pub ','const ','type ','break','continue','static ')) and s.count('(')==s.count(')') and not s.startswith(('.',')')) and (i==0 or L[i-1].strip().endswith((';','{','}')) or L[i-1].strip().startswith('//') or not L[i-1].strip()):
                ms.append((f,i,[''],'delete statement'))
            # conditions
            m=re.match(r'^(\s*(?:\} else )?if )(?!let)(.*) \{$',code)
            if m:
                ms.append((f,i,[f'{m.group(1)}false && ({m.group(2)}) {{'],'condition false'))
                ms.append((f,i,[f'{m.group(1)}true || ({m.group(2)}) {{'],'condition true'))
            if s.endswith('?;') and s.startswith(('self.','check')):
                ms.append((f,i,[code.replace('?;','.ok();')],'error ignored'))
    return ms
def key(m): return f'{m[0]}:{m[1]+1}: {m[3]} [{m[2][0].strip()[:70]}]'
ENV=dict(os.environ,HOME='/root',RUSTUP_TOOLCHAIN='stable',CARGO_NET_OFFLINE='true',RUSTC_WRAPPER='',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_INCREMENTAL='1',PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
def sh(cmd,cwd,t,env=ENV):
    p=subprocess.Popen(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); o,_=p.communicate(); return 124,o.decode(errors='replace')
def prep(w):
    d=f'/tmp/mut/w{w}'; os.makedirs(d,exist_ok=True)
    if not os.path.exists(d+'/repo'):
        subprocess.check_call(['cp','-a','/tmp/seed/repo',d+'/repo'])
    subprocess.check_call(['rsync','-a','--delete',REPO+'/src/',d+'/repo/src/']) if shutil.which('rsync') else (shutil.rmtree(d+'/repo/src'),shutil.copytree(REPO+'/src',d+'/repo/src'))
    shutil.rmtree(d+'/mc/src',ignore_errors=True); os.makedirs(d+'/mc',exist_ok=True)
    shutil.copytree('/verif/mc/src',d+'/mc/src')
    c=open('/verif/mc/Cargo.toml').read().replace('"/repo"',f'"{d}/repo"').replace('codegen-units = 16','codegen-units = 64').replace('opt-level = 3','opt-level = 2')
    open(d+'/mc/Cargo.toml','w').write(c); shutil.copy('/verif/mc/Cargo.lock',d+'/mc/Cargo.lock')
    sh('cargo build --release --offline -j2',d+'/mc',900)
    sh('cargo test -p ext4-view --features std --offline --no-run -j2',d+'/repo',900)
    return d
ALL=[f'P{i:02}' for i in range(1,21)]
FIRST={'path':['P15','P06'],'journal':['P09','P11','P20','P10'],'extents':['P01','P11','P20'],'extent.rs':['P01','P11','P10'],'block_map':['P02','P11'],'dir':['P04','P05','P11','P20','P10'],
 'resolve':['P06','P07'],'file.rs':['P03','P12'],'file_blocks':['P01','P02','P12'],'inode':['P08','P16','P10','P17'],'superblock':['P14','P16','P10'],'block_cache':['P13','P12'],'block_group':['P16','P10'],'reader':['P13','P12'],'uuid':['P14','P15'],'label':['P14','P15'],'features':['P14'],'metadata':['P08','P07'],'file_type':['P08','P04'],'src/lib.rs':['P07','P06','P14','P18'],'read_dir':['P04','P12'],'block_size':['P14','P13'],'block_index':['P02'],'util':['P08','P15']}
def order(f):
    o=[]
    for k,v in FIRST.items():
        if k in f: o+=[x for x in v if x not in o]
    return o+[x for x in ALL if x not in o]
lock=threading.Lock()
res=open(OUT+'/results.jsonl','a')
done=set()
if os.path.exists(OUT+'/results.jsonl'):
    for l in open(OUT+'/results.jsonl'):
        done.add(json.loads(l)['key'])
def log(r):
    with lock:
        res.write(json.dumps(r)+'\n'); res.flush()
def worker(w,q):
    d=prep(w)
    env=dict(ENV,VERIF_DIR=f'{d}/v',MC_THREADS='2',MC_SECTION_SECS=os.environ.get('MUT_SECS','4'))
    os.makedirs(d+'/v/evidence',exist_ok=True)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        k=key(m)
        p=f'{d}/repo/{m[0]}'; orig=open(f'{REPO}/{m[0]}').read()
        L=orig.split('\n'); L[m[1]]=m[2][0]
        open(p,'w').write('\n'.join(L))
        try:
            rc,o=sh('cargo test -p ext4-view --features std --offline --no-fail-fast -j2 -- --include-ignored --test-threads 4',d+'/repo',200)
            if 'error: could not compile' in o or 'error[' in o: log({'key':k,'r':'build'}); continue
            bad=[x for x in re.findall(r'^test (\S+).* \.\.\. FAILED$',o,re.M)]
            new=[x for x in bad if x not in BASEBAD]
            if new or rc==124 or 'test result' not in o: log({'key':k,'r':'tests','n':new[:3]}); continue
            rc,o=sh('cargo build --release --offline -j2',d+'/mc',900)
            if rc!=0: log({'key':k,'r':'mcbuild','o':o[-500:]}); continue
            r=None
            for pid in order(m[0]):
                t=time.time()
                rc,o=sh(f'./target/release/mc --property {pid}',d+'/mc',900,env)
                v=re.findall(r'VIOLATION property=\S+',o)
                if rc==1 and v: r={'key':k,'r':'caught','by':pid,'s':round(time.time()-t)}; break
                if rc!=0: r={'key':k,'r':f'rc{rc}','by':pid,'o':o[-300:]}; break
            log(r or {'key':k,'r':'SURVIVED'})
        finally:
            open(p,'w').write(orig)
ms=mutants()
seen=set(); u=[]
for m in ms:
    if key(m) in seen or key(m) in done: continue
    seen.add(key(m)); u.append(m)
random.seed(7); random.shuffle(u)
if LIMIT: u=u[:LIMIT]
print(len(u),'mutants')
if '--count' in sys.argv: sys.exit()
q=queue.Queue()
for m in u: q.put(m)
ts=[threading.Thread(target=worker,args=(w,q)) for w in range(W)]
for t in ts: t.start()
for t in ts: t.join()
