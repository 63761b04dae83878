"""Generates and validates planted bugs.  python3 tools/seed.py [--check] [ID...]   (definitions in tools/seeds/*.py)
Each definition: bug(id, prop, [(file, old, new)...], needs, breaks, sources, demo[, stubs])."""
import glob, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")  # with SEED_BUILD, SEED_TEST: commands that build it and run its tests
BUILD = os.environ.get("SEED_BUILD", "bash /opt/vp/build.sh"); TEST = os.environ.get("SEED_TEST", "bash /opt/vp/test.sh")
BUGS = {}
def bug(id, prop, edits, needs, breaks, sources, demo, stubs=True):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, sources=sources, demo=demo, stubs=stubs)
for f in sorted(glob.glob(f"{ROOT}/tools/seeds/*.py")): exec(compile(open(f).read(), f, "exec"))
SH = r'''#!/bin/bash
# builds demo.cpp with the sources it exercises from the tree in the current directory; exit 0 = behaves as required
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d /tmp/seed_demo.XXXXXX); trap 'rm -rf "$T"' EXIT
F='-std=c++17 -O0 -w -DUSE_C2A_COMMAND_SENDER -DSETTINGS_DIR_FROM_EXE="./settings" -DEXT_LIB_DIR_FROM_EXE="./extlib" -DCORE_DIR_FROM_EXE="."'
I="-I$D -I$R/src -I$R/ExtLibraries -I$R/ExtLibraries/inih -I$R/example/src"
S="@SOURCES@"
[ "$S" = ALL ] && S=$(cd "$R" && find src example/src -name '*.cpp' ! -name 'test_*' ! -name 's2e.cpp' ! -name 'hils_uart_port.cpp' ! -name 'hils_i2c_target_port.cpp' ! -name 'com_port_interface.cpp')
cd "$R" || exit 2
{ for s in $S; do echo "$R/$s"; done; echo "$R/ExtLibraries/inih/cpp/INIReader.cpp"; echo "$R/ExtLibraries/inih/ini.c"; ls "$D"/*.cpp; } | xargs -P 8 -I{} sh -c 'n=$(echo "$1" | tr / _); case "$1" in *.c) gcc -w -O0 -c "$1" -o "$2/$n.o";; *) g++ '"$(printf '%q ' $F)"' '"$I"' -c "$1" -o "$2/$n.o";; esac' sh {} "$T" || { echo "demo does not build"; exit 3; }
g++ "$T"/*.o -o "$T/demo" -lpthread -Wl,--unresolved-symbols=ignore-all || { echo "demo does not link"; exit 3; }
mkdir "$T/run" && cd "$T/run" && timeout 120 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def write(b):
    d = f"{ROOT}/seeded/{b['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f, old, new in b["edits"]:
        p = f"{REPO}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {REPO} diff").stdout)
    open(f"{d}/demo.cpp", "w").write(b["demo"])
    open(f"{d}/demo.sh", "w").write(SH.replace("@SOURCES@", b["sources"])); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    if b["stubs"]:
        for f in ("SpiceUsr.h", "env_stub.hpp", "env_stub.cpp", "nrlmsise-00.h"): shutil.copy(f"{ROOT}/stubs/{f}", d)
def clean(): subprocess.run(["git", "-C", REPO, "checkout", "--", "."], check=True)
def main():
    a = sys.argv[1:]; only_check = "--check" in a; ids = [x for x in a if not x.startswith("-")] or sorted(BUGS)
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip()
    bad = []
    for i in ids:
        b = BUGS[i]; d = f"{ROOT}/seeded/{i}"; r = {}
        try:
            if only_check: subprocess.run(["git", "-C", REPO, "apply", f"{d}/patch.diff"], check=True)
            else:
                write(b)
                r["build"] = sh(BUILD).returncode
                t = sh(TEST + " /tmp/seed_t.json"); r["failed_tests"] = len(json.load(open("/tmp/seed_t.json"))["failed"])
                x = sh(f"bash {d}/demo.sh", cwd=REPO); r["demo_patched"] = x.returncode; r["msg"] = x.stdout.strip()[-150:]
            c = sh(f"VERIF_REPO={REPO} ./check {b['prop']} quick", cwd=ROOT); r["check"] = c.returncode; r["by"] = [l.strip() for l in c.stdout.splitlines() if "violated:" in l][:1]
        finally: clean()
        if not only_check:
            x = sh(f"bash {d}/demo.sh", cwd=REPO); r["demo_clean"] = x.returncode
            if x.returncode: r["clean_msg"] = x.stdout[-300:]
        ok = r["check"] == 1 and (only_check or (r["build"] == 0 and r["failed_tests"] == 0 and r["demo_patched"] not in (0, 3) and r["demo_clean"] == 0))
        print("OK " if ok else "BAD", i, b["prop"], r, flush=True)
        if not ok: bad.append(i)
    if not only_check: sh(BUILD)
    print("bad:", bad)
main()
