#!/usr/bin/env python3
"""mkseed.py DEF.py : build and confirm seeded bugs. DEF.py defines BUGS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo)]"""
import json, os, shutil, subprocess, sys, importlib.util
sp = importlib.util.spec_from_file_location("d", sys.argv[1]); d = importlib.util.module_from_spec(sp); sp.loader.exec_module(d)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# builds the program next to this file against the library in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nconcordance = { path = "%s" }\\n@DEPS@[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q
'''
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
for b in d.BUGS:
    if only and b["id"] not in only: continue
    out = "/verif/seeded/" + b["id"]; tmp = "/tmp/mut/seed-" + b["id"]
    shutil.rmtree(tmp, ignore_errors=True); run(["cp", "-a", "/repo", tmp], "/")
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + "/main.rs", "w").write(b["demo"]); open(out + "/demo.sh", "w").write(DEMO.replace("@DEPS@", b.get("deps", "").replace("\n", "\\n"))); os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    r0 = run(["bash", out + "/demo.sh"], tmp)
    ok = True
    for f, old, new in b["edits"]:
        s = open(tmp + "/" + f).read()
        if s.count(old) != 1: print(b["id"], "pattern occurs", s.count(old), "times:", old[:60]); ok = False; break
        open(tmp + "/" + f, "w").write(s.replace(old, new))
    if not ok: shutil.rmtree(out); continue
    p = run(["git", "diff"], tmp).stdout; open(out + "/patch.diff", "wb").write(p)
    t = run(["cargo", "test", "--offline", "-q"], tmp); tl = [l for l in t.stdout.decode().splitlines() if "test result" in l or "FAILED" in l or l.startswith("error")]
    r1 = run(["bash", out + "/demo.sh"], tmp)
    good = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
    print(b["id"], "OK" if good else "BAD", "clean", r0.returncode, "bug", r1.returncode, "tests", t.returncode)
    if not good: print((r0.stdout.decode()[-900:] if r0.returncode else ""), "\n".join(tl[:8]))
    if not good: shutil.rmtree(out)
    shutil.rmtree(tmp)
