#!/usr/bin/env python3
"""Mutation campaign: which small changes of /repo does no check notice?
   mutate.py OUT.jsonl COUNT SEED [file-regex]     (work in /tmp/mut/N, removed by the caller)
   Each mutant runs every property's search for a few seconds."""
import sys, os, re, random, subprocess, json, shutil, threading, queue, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FR = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
BASE = os.environ.get("BASE", "/repo")
W = int(os.environ.get("WORKERS", "8"))
TL = float(os.environ.get("PROP_SECONDS", "15"))
FILES = {  # file -> (first line regex, weight)
    "src/lib.c": 1, "src/obu.c": 1, "src/decode.c": 1, "src/thread_task.c": 1.5, "src/ref.c": 1, "src/mem.c": 1, "src/picture.c": 1.5, "src/data.c": 1,
    "src/cdf.c": 0.5, "src/refmvs.c": 0.5, "src/fg_apply_tmpl.c": 1, "tools/dav1d.c": 1, "tools/input/ivf.c": 1, "tools/input/annexb.c": 1, "tools/input/section5.c": 1,
    "tools/input/input.c": 1, "tools/output/output.c": 1, "tools/output/yuv.c": 1, "tools/output/y4m2.c": 1, "tools/output/md5.c": 1, "tools/output/xxhash.c": 1,
    "src/getbits.c": 1, "src/cpu.c": 1, "src/ctx.h": 1, "src/recon_tmpl.c": 0.3, "src/lf_apply_tmpl.c": .3, "src/lr_apply_tmpl.c": .3, "src/cdef_apply_tmpl.c": .3,
    "src/ref.h": 1, "src/data.h": 1, "src/thread_data.h": 1, "tools/dav1d_cli_parse.c": .5}
FROM = {"src/decode.c": "static void reset_context|static void mc_lowest_px", "src/recon_tmpl.c": "void bytefn\\(dav1d_filter_sbrow_deblock_cols\\)|dav1d_filter_sbrow_deblock_cols", "src/cdf.c": "dav1d_cdf_thread_init_static",
        "src/refmvs.c": "void dav1d_refmvs_tile_sbrow_init|int dav1d_refmvs_init_frame"}
PROPS = "C15 C12 C01 C10 C09 C02 C03 C04 C05 C06 C07 C08 C11 C13 C16 C17 C18 C19 C20 C22 C23 C24 C14 C21".split()

def mutants():
    r = []
    for f, w in FILES.items():
        p = f"{BASE}/{f}"
        if not os.path.exists(p) or not FR.search(f): continue
        ls = open(p).read().split("\n")
        i0 = 0
        if f in FROM:
            for i, l in enumerate(ls):
                if re.search(FROM[f], l): i0 = i; break
        for i in range(i0, len(ls)):
            l = ls[i]; s = l.strip()
            if not s or s.startswith(("#", "//", "*", "/*")) or l.endswith("\\"): continue
            c = []
            prev = ls[i-1].strip() if i else ""
            stmt_start = not prev or prev.endswith((";", "{", "}", ":", "*/", ")", "else")) or prev.startswith("#")
            if s.endswith(";") and stmt_start and not re.match(r"(return|break|continue|goto|case|default|typedef|static|const|extern|assert|struct|int\b|unsigned\b|uint|ptrdiff|size_t|Dav1d\w+ |enum|void|char|atomic_\w+ \w+;|\})", s) \
               and s.count("(") == s.count(")") and not s.startswith(("for", "while", "do")):
                if s.startswith("if ("):
                    pass
                else: c.append(("del", re.match(r"\s*", l).group() + ";"))
            m = re.match(r"(\s*(?:\} else )?(?:else )?)if \((.*)\)( \{| [a-z].*;|)$", l)
            if m and m.group(2).count("(") == m.group(2).count(")"):
                c.append(("if0", f"{m.group(1)}if (0 && ({m.group(2)})){m.group(3)}"))
                c.append(("if1", f"{m.group(1)}if (1 || ({m.group(2)})){m.group(3)}"))
            for op in (" && ", " || "):
                if op in l: c.append(("and-or", l.replace(op, " || " if op == " && " else " && ", 1)))
            for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + 1", ""), (" - 1", ""), ("++", ""),
                         (" |= ", " = "), (" &= ~", " |= "), (" & ", " | "), (" << ", " >> "), ("!", "")):
                if a in l and "->" not in a and not s.startswith("for") or (a in l and s.startswith("for") and a in (" < ",)):
                    k = [x.start() for x in re.finditer(re.escape(a), l)]
                    j = random.choice(k)
                    n = l[:j] + b + l[j+len(a):]
                    c.append(("op", n))
            for kind, n in c: r.append((w, f, i, kind, n))
    return r

random.seed(SEED)
ms = mutants()
print(len(ms), "candidates", flush=True)
ms = sorted(ms, key=lambda m: random.random() ** (1 / m[0]), reverse=True)[:COUNT]
if os.environ.get("RETEST"): # the survivors of an earlier run
    for x in map(json.loads, open(os.environ["RETEST"])):
        if x["res"] == "SURVIVED":
            o = open(f"{BASE}/{x['file']}").read().split("\n")[x["line"] - 1]
            if o.strip() == x["old"]: ms.append((0, x["file"], x["line"] - 1, x["kind"], o.replace(x["old"], x["new"])))
skip = set()
if os.environ.get("SKIP"): skip = {(x["file"], x["line"], x["new"]) for x in map(json.loads, open(os.environ["SKIP"]))}
ms = [m for m in ms if (m[1], m[2] + 1, m[4].strip()) not in skip or os.environ.get("RETEST")]
q = queue.Queue()
for m in enumerate(ms): q.put(m)
lock = threading.Lock()
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def worker(n):
    d = f"/tmp/mut/{n}"; repo = d + "/repo"; b = d + "/b"
    if not os.path.exists(repo):
        os.makedirs(b, exist_ok=True)
        run(["cp", "-a", BASE, repo]); 
        for v in ("plain", "asan", "tsan"):
            run(["python3", HERE + "/build.py", v], env=dict(os.environ, SIM_REPO=repo, SIM_BUILD=b))
    env = dict(os.environ, SIM_REPO=repo, SIM_BUILD=b, VERIF_SEED="1")
    while True:
        try: i, (w, f, ln, kind, new) = q.get_nowait()
        except queue.Empty: return
        p = f"{repo}/{f}"; src = open(f"{BASE}/{f}").read(); ls = src.split("\n"); old = ls[ln]; ls[ln] = new
        open(p, "w").write("\n".join(ls))
        rec = dict(i=i, file=f, line=ln + 1, kind=kind, old=old.strip(), new=new.strip()); t0 = time.time()
        r = run(["python3", HERE + "/build.py", "plain"], env=env)
        if r.returncode: rec["res"] = "nobuild"
        else:
            rec["res"] = "SURVIVED"
            for P, T in [(P, 3) for P in PROPS if P not in ("C04", "C21")] + [(P, TL) for P in PROPS]:
                v = {"C21": "tsan", "C04": "asan"}.get(P, "plain")
                if v != "plain": run(["python3", HERE + "/build.py", v], env=env)
                rep = f"{d}/r"
                try:
                    r = run([f"{b}/{v}/simrun", "--prop", P, "--seed", "1", "--time", str(T), "--mintime", "0", "--jobs", "1", "--out", f"{d}/o.json", "--replay-out", rep], timeout=400)
                    code = r.returncode; o = r.stdout
                except subprocess.TimeoutExpired: code, o = "timeout", ""
                if code != 0:
                    m = re.search(r"VIOLATION.*", o); m2 = re.search(r"kind[= ]\S+.*|fail.*", o)
                    rec["res"] = f"{P}:{code}" if m else f"{P}:ODD{code}"; break
        open(p, "w").write(src); rec["s"] = round(time.time() - t0)
        with lock:
            open(OUT, "a").write(json.dumps(rec) + "\n")
ts = [threading.Thread(target=worker, args=(n,)) for n in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
