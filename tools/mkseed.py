#!/usr/bin/env python3
"""Turn a description of a planted bug into seeded/<id>/ after confirming it in a scratch copy.
   usage: mkseed.py FILE.py ...   each file defines ID, PROP, EDITS [(file, old, new)], DEMO (rust), NEEDS, BREAKS"""
import json, os, shutil, subprocess, sys
SD = "/tmp/sd"
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Builds the program beside this script against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Ctarget-cpu=x86-64-v3 RUSTC_WRAPPER=
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nredstone-ml = { path = "%s" }\\n' "$repo" > "$d/Cargo.toml"
cd "$d"
cargo build --offline --quiet --target-dir "$d/target" >"$d/log" 2>&1 || { cat "$d/log"; exit 99; }
timeout 120 "$d/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main(f):
    ns = {}
    exec(open(f).read(), ns)
    ID = ns["ID"]
    if not os.path.isdir(SD): sh("cp -a /repo " + SD)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD && git -C %s clean -fdq" % (SD, SD, SD))
    for path, old, new in ns["EDITS"]:
        p = os.path.join(SD, path); s = open(p).read()
        if s.count(old) != 1: print(ID, "EDIT MATCHES", s.count(old), path); return
        open(p, "w").write(s.replace(old, new))
    patch = sh("git -C %s diff" % SD).stdout
    r = sh("sed 's#/repo#/tmp/sd#g' /opt/vp/env.sh > /tmp/sd_env.sh; . /tmp/sd_env.sh; cd /tmp/sd && cargo test --workspace --no-run --offline 2>&1 | tail -5")
    if "error" in r.stdout: print(ID, "BUILD", r.stdout); return
    r = sh("cd /tmp/sd && sed 's#/opt/vp/env.sh#/tmp/sd_env.sh#;s#/repo#/tmp/sd#g' /opt/vp/test.sh > /tmp/sd_test.sh && bash /tmp/sd_test.sh /tmp/sd_out.json; true", cwd=SD)
    base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open("/tmp/sd_out.json"))
    def names(x): 
        for k in ("stable", "passed", "tests", "pass"):
            if k in x: return set(x[k])
        raise SystemExit("keys %s" % list(x))
    miss = names(base) - names(out)
    if miss: print(ID, "TESTS CATCH IT:", len(miss), sorted(miss)[:4]); return
    d = "/verif/seeded/" + ID
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(patch); open(d + "/main.rs", "w").write(ns["DEMO"]); open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd="/repo"); b = sh("bash %s/demo.sh" % d, cwd=SD)
    ok = a.returncode == 0 and b.returncode not in (0, 99)
    print(ID, "OK" if ok else "DEMO clean=%s bug=%s\n%s\n%s" % (a.returncode, b.returncode, a.stdout[-800:], b.stdout[-800:]))
    if not ok: shutil.rmtree(d)
for f in sys.argv[1:]: main(f)
