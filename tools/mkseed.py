# mk.py ID PROP FILE  (reads spec from python dict file)
import sys,os,json,subprocess,shutil,tempfile
def mk(id,prop,edits,needs,breaks,demo_rs=None,demo_sh=None,dep='wasp-compiler',extra=None):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix='mk_')
    subprocess.run(['git','clone','-q','/repo',t+'/r'],check=True)
    for f,old,new in edits:
        p=t+'/r/'+f; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','diff'],cwd=t+'/r',stdout=subprocess.PIPE).stdout
    open(d+'/patch.diff','wb').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    if demo_rs is not None:
        open(d+'/demo.rs','w').write(demo_rs)
        lib=dep.replace('-','_')
        open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTFLAGS
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs"
cp /opt/vp/ws/Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
{dep} = {{ path = "$repo/{dep}" }}
[workspace]
T
cd "$t" && cargo run --offline -q --target-dir "$t/target"
''')
    if demo_sh: open(d+'/demo.sh','w').write(demo_sh)
    for k,v in (extra or {}).items(): open(d+'/'+k,'w').write(v)
    shutil.rmtree(t)
