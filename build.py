#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's working tree.
   build.py VARIANT...      (plain, asan, tsan)  -> /verif/build/VARIANT/simrun"""
import glob, os, re, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
CC, CXX = "clang", "clang++"

VAR = {
    "plain": dict(c="-O2", guard="-fsanitize-coverage=trace-pc-guard", san="", ld="", d=""),
    "asan": dict(c="-O1 -g1", guard="", d="-DSIM_ASAN",
                 san="-fsanitize=address,undefined -fno-sanitize=shift-base,pointer-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer",
                 ld="-fsanitize=address,undefined"),
    "cov": dict(c="-O1", guard="", d="", san="-fprofile-instr-generate -fcoverage-mapping", ld="-fprofile-instr-generate"),
    "tsan": dict(c="-O1 -g1", guard="", d="-DSIM_TSAN", san="-fsanitize=thread", ld="-fsanitize=thread"),
}
# pixel and table code: no coverage callbacks (too hot, not control flow of interest)
NOGUARD = {"msac.c", "tables.c", "itx_1d.c", "scan.c", "dequant_tables.c", "qm.c", "refmvs.c", "lf_mask.c",
           "warpmv.c", "wedge.c", "intra_edge.c", "pal.c", "ctx.c", "cdf.c"}

def gen(variant, out):
    v = VAR[variant]
    inc = f"-I{HERE}/sim/inc/cfg -I{HERE}/sim/inc -I{REPO}/src -I{REPO} -I{REPO}/include/dav1d -I{REPO}/include"
    cf = (f"-std=c99 -D_GNU_SOURCE -DSIMULATOR -ffast-math -fvisibility=hidden -fno-pie -w {v['c']} {v['d']} {inc} "
          f"-I{REPO}/include -include {HERE}/sim/inc/pre.h")
    ren = "--rename-section .bss=simlib_bss,alloc --rename-section .data=simlib_data,alloc,load,data,contents"
    if variant == "asan":  # instrumented variables get sections of their own
        ren += (r" $$(objdump -h $out | awk '$$2 ~ /^\.bss\./ {print \"--rename-section \" $$2 \"=simlib_bss,alloc\"} "
                r"$$2 ~ /^\.data\./ && $$2 !~ /rel.ro/ {print \"--rename-section \" $$2 \"=simlib_data,alloc,load,data,contents\"}')")
        ren = ren.replace('\\"', '"')
    post = f"&& objcopy --redefine-syms={HERE}/sim/redefine_tsan.syms $out" if variant == "tsan" else ""
    n = ["ninja_required_version = 1.5",
         f"rule cc\n command = {CC} -MMD -MF $out.d {cf} {v['san']} $x -c $in -o $out && "
         f"objcopy {ren} --redefine-syms={HERE}/sim/redefine.syms $out\n depfile = $out.d\n deps = gcc",
         f"rule cxx\n command = {CXX} -MMD -MF $out.d -std=c++17 -O2 -g1 -Wall -Wno-unused-function -fno-pie {v['d']} -I{HERE}/sim "
         f"-I{HERE}/sim/inc/cfg -I{REPO}/include -I{REPO}/include/dav1d $x -c $in -o $out {post}\n depfile = $out.d\n deps = gcc",
         f"rule ccx\n command = {CC} -MMD -MF $out.d -std=gnu11 -O2 -g1 -Wall -fno-pie {v['d']} {v['san']} {inc} "
         f"$x -c $in -o $out\n depfile = $out.d\n deps = gcc",
         f"rule link\n command = {CXX} -no-pie {v['ld']} $in -o $out -lm -lpthread"]
    objs = []
    for f in sorted(glob.glob(f"{REPO}/src/*.c")):
        b = os.path.basename(f)
        if b.endswith("_tmpl.c"):
            for bd in (8, 16):
                o = f"lib/{b[:-2]}_{bd}.o"
                n.append(f"build {o}: cc {f}\n x = -DBITDEPTH={bd}")
                objs.append(o)
        else:
            o = f"lib/{b[:-2]}.o"
            n.append(f"build {o}: cc {f}\n x = {'' if b in NOGUARD else v['guard']}")
            objs.append(o)
    # command line tool
    cli = os.path.exists(f"{HERE}/sim/redefine_cli.syms")
    tinc = f"-I{HERE}/sim/inc/cli -I{REPO}/tools"
    for f in sorted(glob.glob(f"{REPO}/tools/*.c") + glob.glob(f"{REPO}/tools/input/*.c") + glob.glob(f"{REPO}/tools/output/*.c")):
        if not cli: break
        o = "tools/" + os.path.relpath(f, f"{REPO}/tools").replace("/", "_")[:-2] + ".o"
        n.append(f"build {o}: cctool {f}\n x = {v['guard']} {tinc}")
        objs.append(o)
    # player
    if os.path.exists("/usr/include/SDL2/SDL.h"):
        pinc = f"-I/usr/include/SDL2 -I{REPO}/examples -I{REPO}/tools -D_REENTRANT -DHAVE_PLACEBO=0 -DHAVE_VULKAN=0 -Dmain=play_main"
        for f in sorted(glob.glob(f"{REPO}/examples/*.c")) + [f"{HERE}/sim/player/playrdr.c"]:
            if "placebo" in f: continue
            o = "player/" + os.path.basename(f)[:-2] + ".o"
            n.append(f"build {o}: cctool {f}\n x = {v['guard']} {pinc}")
            objs.append(o)
        # what the simulation does not provide does nothing
        names = set()
        for f in glob.glob("/usr/include/SDL2/SDL*.h"):
            names |= set(re.findall(r"SDLCALL\s+(SDL_\w+)\s*\(", open(f, errors="replace").read()))
        txt = "".join(f"__attribute__((weak)) long {x}(void) {{ return 0; }}\n" for x in sorted(names))
        p = os.path.join(out, "sdlstub.c")
        if not os.path.exists(p) or open(p).read() != txt: open(p, "w").write(txt)
        n.append(f"build player/sdlstub.o: ccx {p}\n x = -w -fno-sanitize=all")
        objs.append("player/sdlstub.o")
    ctf = cf.replace('-ffast-math', '').replace(f"-I{REPO}/src ", "")
    n.insert(1, f"rule cctool\n command = {CC} -MMD -MF $out.d {ctf} {v['san']} $x -c $in -o $out && "
             f"objcopy {ren} --redefine-syms={HERE}/sim/redefine.syms --redefine-syms={HERE}/sim/redefine_cli.syms $out\n depfile = $out.d\n deps = gcc")
    for f in sorted(glob.glob(f"{HERE}/sim/*.cpp")):
        o = "sim/" + os.path.basename(f)[:-4] + ".o"
        n.append(f"build {o}: cxx {f}")
        objs.append(o)
    for f in sorted(glob.glob(f"{HERE}/sim/*.c")):
        o = "sim/" + os.path.basename(f)[:-2] + "_c.o"
        n.append(f"build {o}: ccx {f}")
        objs.append(o)
    n.append("build simrun: link " + " ".join(objs))
    txt = "\n".join(n) + "\n"
    p = os.path.join(out, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)

def build(variant):
    out = os.path.join(OUT, variant)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen(variant, out)
        r = subprocess.run(["ninja", "-C", out, "simrun"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:])
            raise SystemExit(3)
    return os.path.join(out, "simrun")

if __name__ == "__main__":
    for x in sys.argv[1:]:
        print(build(x))
