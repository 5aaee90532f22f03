#!/usr/bin/env python3
"""Author's tool: write seeded/<id>/ from a python spec file and validate it.
usage: mkbug.py ID  reads /tmp/pl/ID.py with: prop, needs, breaks, edits=[(file,old,new)], demo (C source) or demo_sh
"""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif"
UTIL_SH = r'''#!/bin/bash
# builds demo.c with the sources of the repository in a scratch folder and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
repo=$(pwd)
%(build)s
cd "$t" && timeout 120 ./demo
'''
ENG_SH = r"""#!/bin/bash
# builds the command line tool from the sources of the repository in a scratch
# folder, with the csv library beside this script, and runs demo.py with it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
repo=$(pwd)
mkdir "$t/o"
inc="-I$here -I$repo/lib/include -I$repo/lib -I$repo -I$repo/util"
{
for f in "$repo"/lib/antlr/gen/*Parser.cpp "$repo"/lib/antlr/gen/*Lexer.cpp "$repo"/lib/antlr/gen/*Listener.cpp "$repo"/lib/antlr/*.cpp; do
  [ -e "$f" ] && echo "g++ -std=c++17 -O0 -w -include $here/antlr_once.h -I/usr/include/antlr4-runtime $inc -I$repo/lib/antlr -c $f -o $t/o/x$(basename "$f").o"
done
for f in "$repo"/util/*.c "$repo"/lib/*.c "$repo"/src/fql.c "$here"/csv.c; do
  echo "gcc -g -O1 -w -std=gnu11 -D_GNU_SOURCE $inc -DSCHEMA_DATADIR='\"$repo/lib/schema/\"' -c $f -o $t/o/$(basename "$f").o"
done
} | xargs -d '\n' -P 8 -n 1 bash -c || exit 3
g++ -o "$t/fql" "$t"/o/*.o -lpcre2-8 -lantlr4-runtime -lreadline -pthread -lm || exit 3
mkdir "$t/w"
cd "$t/w" && timeout 120 python3 "$here/demo.py" "$t/fql"
"""
ENG_PY = r"""import sys, os, subprocess, shutil
exe = sys.argv[1]
def listing():
    return {f: open(f, "rb").read().decode("latin-1") for f in sorted(os.listdir(".")) if os.path.isfile(f)}
def run(files, args, stdin=None):
    for f in os.listdir("."): os.unlink(f)
    for f, s in files.items(): open(f, "wb").write(s.encode("latin-1"))
    try: p = subprocess.run([exe] + args, capture_output=True, timeout=20, input=(stdin or "").encode("latin-1"))
    except subprocess.TimeoutExpired: return "timeout", "", listing()
    return p.returncode, p.stdout.decode("latin-1"), listing()
bad = 0
# (files, arguments, standard input, status, output, files afterwards or None)
for files, args, stdin, rc, out, after in %(cases)s:
    got = run(files, args, stdin)
    want = (rc, out, dict(files) if after is None else after)
    if (got[0] if rc is not None else None, got[1], got[2]) != want:
        print(args, "expected", want, "got", got); bad = 1
sys.exit(bad)
"""
def main(i):
    ns = {}
    exec(open(f"/tmp/pl/{i}.py").read(), ns)
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    subprocess.check_call(["git", "-C", os.environ.get("PLANT_REPO", "/repo"), "worktree", "add", "-q", "--detach", wt + "/w"])
    try:
        for f, o, n in ns["edits"]:
            p = f"{wt}/w/{f}"; s = open(p).read()
            assert s.count(o) == 1, (f, o, s.count(o))
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.check_output(["git", "-C", wt + "/w", "diff"])
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", wt + "/w"]); shutil.rmtree(wt)
    open(d + "/patch.diff", "wb").write(diff)
    json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if "sql" in ns:
        # each case: (files, arguments, standard input, files expected afterwards or None)
        import pprint
        sys.path.insert(0, V)
        os.environ.setdefault("VERIF_ENGINE_CACHE", "/var/tmp/vf_engine")
        from vf import engine as E
        pool = E.Pool(E.build_engine(), 1); cases = []
        def one(srv, dd, c):
            for f, x in c[0].items(): E.put(dd, f, x)
            r = srv.run(dd, ["fql", "-q"] + c[1], c[2])
            l = {f: open(os.path.join(dd, f), "rb").read().decode("latin-1") for f in os.listdir(dd)}
            return r.rc, r.out, l
        for c in ns["sql"]:
            rc, out, l = pool.map(one, [c])[0]
            print("  recorded:", c[1], rc, repr(out), {k: v for k, v in l.items() if c[0].get(k) != v})
            cases.append((c[0], ["-q"] + c[1], c[2], rc, out, None if l == c[0] else l))
        pool.close()
        open(d + "/demo.py", "w").write(ENG_PY % dict(cases=pprint.pformat(cases, width=140)))
        ns["demo_sh"] = ENG_SH.replace('\\\\"', '\\"')
        for f in ("csv.c", "csv.h", "antlr_once.h"): shutil.copy(V + "/shim/" + f, d)
    if "pydemo" in ns:
        open(d + "/demo.py", "w").write(ns["pydemo"])
        ns["demo_sh"] = ENG_SH.replace('\\\\"', '\\"')
        for f in ("csv.c", "csv.h", "antlr_once.h"): shutil.copy(V + "/shim/" + f, d)
    if "demo" in ns:
        open(d + "/demo.c", "w").write(ns["demo"])
    for k, v in ns.get("files", {}).items():
        open(f"{d}/{k}", "w").write(v)
    build = ns.get("build", 'gcc -std=gnu11 -w -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -I"$repo/util" -o "$t/demo" "$here/demo.c" "$repo"/util/*.c -pthread -lm || exit 3')
    open(d + "/demo.sh", "w").write(ns.get("demo_sh") or UTIL_SH % dict(build=build))
    os.chmod(d + "/demo.sh", 0o755)
    (fast if FAST else validate)(i, ns["prop"])
def fast(i, prop=None):
    """in a worktree, without the repository's own build and tests"""
    d = f"{V}/seeded/{i}"
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    wt = tempfile.mkdtemp(prefix="plant", dir="/tmp"); w = wt + "/w"
    subprocess.check_call(["git", "-C", os.environ.get("PLANT_REPO", "/repo"), "worktree", "add", "-q", "--detach", w])
    try:
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        print(i, "demo unchanged:", r0.returncode, r0.stdout[-300:], r0.stderr[-300:])
        subprocess.check_call(["git", "-C", w, "apply", d + "/patch.diff"])
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        print("demo patched:", r1.returncode, r1.stdout[-300:], r1.stderr[-200:])
        c = subprocess.run(CMD(prop), cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=w))
        print("check", prop, "exit", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:2], c.stderr[-300:])
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w]); shutil.rmtree(wt)
    print("==>", i, "OK" if r0.returncode == 0 and r1.returncode != 0 else "INVALID", "CAUGHT" if c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout else "MISSED", flush=True)
def validate(i, prop=None, check=True):
    d = f"{V}/seeded/{i}"
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip(), "dirty /repo"
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    print(i, "demo unchanged:", r0.returncode, r0.stdout[-300:], r0.stderr[-300:])
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        print("build", b.returncode)
        t = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/pl/out.json"], capture_output=True, text=True)
        print("tests", t.returncode, open("/tmp/pl/out.json").read()[:0])
        o = json.load(open("/tmp/pl/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        print({k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in o.items()})
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        print("demo patched:", r1.returncode, r1.stdout[-300:], r1.stderr[-200:])
        if check:
            c = subprocess.run(CMD(prop), shell=False, cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            print("check", prop, "exit", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:2], c.stderr[-300:])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0
    print("==>", i, "COUNTS" if ok else "INVALID", "CAUGHT" if check and c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout else "MISSED")
def CMD(p):
    m = json.load(open(V + "/MANIFEST.json"))
    for c in m["checks"]:
        if c["property"] == p:
            return ["bash", "-c", c["quick_cmd"]]
    return ["false"]
FAST = "-f" in sys.argv
if FAST: sys.argv.remove("-f")
if __name__ == "__main__":
    if sys.argv[1] == "-v":
        for i in sys.argv[2:]: (fast if FAST else validate)(i)
    else:
        for i in sys.argv[1:]: main(i)
