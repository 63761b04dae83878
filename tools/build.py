#!/usr/bin/env python3
"""Builds /repo's sources + stand-ins into build/libs2e.a and harness binaries (incremental, ninja)."""
import glob, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(ROOT, "build") if REPO == "/repo" else os.path.join(ROOT, "build", "alt_" + REPO.strip("/").replace("/", "_"))
SKIP = ("components/ports/hils_uart_port.cpp", "components/ports/hils_i2c_target_port.cpp", "utilities/com_port_interface.cpp",
        "simulation/hils/__none__")
FLAGS = ("-std=c++17 -O1 -g1 -w -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=bounds -D_GLIBCXX_ASSERTIONS "
         f"-DUSE_C2A_COMMAND_SENDER -I{ROOT}/stubs -I{REPO}/src -I{REPO}/ExtLibraries -I{REPO}/ExtLibraries/inih "
         '-DSETTINGS_DIR_FROM_EXE=\\"./settings\\" -DEXT_LIB_DIR_FROM_EXE=\\"./extlib\\" -DCORE_DIR_FROM_EXE=\\"' + REPO + '\\"')
def gen(harnesses):
    os.makedirs(B, exist_ok=True)
    srcs = [f for f in sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True)) if not os.path.basename(f).startswith("test_")
            and not any(f.endswith(s) for s in SKIP)]
    ex = sorted(glob.glob(f"{REPO}/example/src/**/*.cpp", recursive=True))
    ex = [f for f in ex if os.path.basename(f) != "s2e.cpp"]
    ini = [f"{REPO}/ExtLibraries/inih/cpp/INIReader.cpp"]
    o = ["ninja_required_version = 1.3", f"flags = {FLAGS}",
         "rule cxx\n command = clang++ $flags $xf -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         "rule cc\n command = clang -O1 -g1 -w -fsanitize=address $xc -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         "rule ar\n command = rm -f $out && ar crsT $out $in",
         "rule link\n command = clang++ -fsanitize=address,bounds -o $out $in -lpthread"]
    objs = []
    def obj(f, base, tag):
        n = f"{B}/o/{tag}/" + os.path.relpath(f, base).replace("/", "__") + ".o"
        o.append(f"build {n}: cxx {f}"); return n
    for f in srcs: objs.append(obj(f, f"{REPO}/src", "src"))
    for f in ini: objs.append(obj(f, REPO, "ext"))
    n = f"{B}/o/ext/ini.o"; o.append(f"build {n}: cc {REPO}/ExtLibraries/inih/ini.c\n xc = -I{REPO}/ExtLibraries/inih"); objs.append(n)
    exo = []
    for f in ex:
        n = obj(f, f"{REPO}/example/src", "ex"); o[-1] += f"\n xf = -I{REPO}/example/src"; exo.append(n)
    sup = [obj(f"{ROOT}/stubs/env_stub.cpp", ROOT, "v"), obj(f"{ROOT}/lib/mc.cpp", ROOT, "v")]
    for f in sorted(glob.glob(f"{ROOT}/lib/*.cpp")):
        if not f.endswith("/mc.cpp"):
            sup.append(obj(f, ROOT, "v")); o[-1] += f"\n xf = -I{ROOT}/lib -I{REPO}/example/src"
    for h in sorted(glob.glob(f"{ROOT}/harness/*.cpp")):
        t = os.path.basename(h)[:-4]
        n = obj(h, ROOT, "h"); o[-1] += f"\n xf = -I{ROOT}/lib -I{REPO}/example/src"
        o.append(f"build {B}/bin/{t}: link {n} {' '.join(sup)} {B}/libs2e.a\n")
    open(f"{B}/build.ninja", "w").write("\n".join(o) + "\n")
    return objs + exo
def build(harnesses, verbose=False):
    objs = gen(harnesses)
    env = dict(os.environ, TMPDIR=os.environ.get("TMPDIR", "/tmp"))
    j = str(os.cpu_count() or 8)
    hob = [f"{B}/o/h/harness__{h}.cpp.o" for h in harnesses]
    sup = [f"{B}/o/v/" + n for n in ("lib__mc.cpp.o", "stubs__env_stub.cpp.o")]
    sup += [f"{B}/o/v/lib__{os.path.basename(f)}.o" for f in glob.glob(f"{ROOT}/lib/*.cpp") if not f.endswith("/mc.cpp")]
    r = subprocess.run(["ninja", "-C", B, "-k", "0", "-j", j] + hob + sup + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
    if r.returncode: print(r.stdout[-6000:])
    ok = [x for x in objs if os.path.exists(x)]
    # a file that does not compile is left out; the link decides whether it was needed
    if r.returncode:
        import re
        failed = set(re.findall(r"^FAILED: (?:\[code=\d+\] )?(\S+)", r.stdout, re.M))
        ok = [x for x in ok if x not in failed]
        if any(h in failed for h in hob): return False
    newest = max(os.path.getmtime(x) for x in ok)
    lst = "\n".join(ok); lf = f"{B}/objs.txt"
    if not os.path.exists(f"{B}/libs2e.a") or os.path.getmtime(f"{B}/libs2e.a") < newest or not os.path.exists(lf) or open(lf).read() != lst:
        if os.path.exists(f"{B}/libs2e.a"): os.unlink(f"{B}/libs2e.a")
        open(f"{B}/libs2e.rsp", "w").write("\n".join(ok))
        subprocess.run(["ar", "crsT", f"{B}/libs2e.a", f"@{B}/libs2e.rsp"], check=True)
        open(lf, "w").write(lst)
    os.makedirs(f"{B}/bin", exist_ok=True)
    good = True
    procs = []
    for h in harnesses:
        out = f"{B}/bin/{h}"; ho = f"{B}/o/h/harness__{h}.cpp.o"
        deps = [ho, f"{B}/libs2e.a"] + sup
        if os.path.exists(out) and os.path.getmtime(out) >= max(os.path.getmtime(d) for d in deps): continue
        procs.append((h, subprocess.Popen(["clang++", "-fsanitize=address,bounds", "-o", out, ho] + sup + [f"{B}/libs2e.a", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        if len(procs) >= 8:
            for n, p in procs:
                t = p.communicate()[0]
                if p.returncode: print("link", n, "failed:\n", t[-3000:]); good = False
            procs = []
    for n, p in procs:
        t = p.communicate()[0]
        if p.returncode: print("link", n, "failed:\n", t[-3000:]); good = False
    return good
if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        hs = []
        sys.exit(0 if build(hs) else 1)
    hs = sys.argv[1:] or [os.path.basename(f)[:-4] for f in sorted(glob.glob(f"{ROOT}/harness/*.cpp"))]
    sys.exit(0 if build(hs) else 1)
