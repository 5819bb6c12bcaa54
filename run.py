#!/usr/bin/env python3
"""Driver of the BSMPT model-checking checks.

  run.py setup                 warm the compiler cache (setup_cmd)
  run.py check ID quick|thorough
  run.py replay FILE           re-run the one recorded case of a violation

A check = one harness binary, built from /repo's current working tree, that
enumerates a finite set of cases.  The cases are sharded over processes; every
shard writes a JSON summary.  Exit 0: property held on everything explored.
Exit 1: a VIOLATION line was printed.  Exit 2: the check could not be built/run.
"""
import json, os, re, shutil, signal, subprocess, sys, time, glob, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BSMPT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
NCPU = os.cpu_count() or 4
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

DEFS = ["libcmaes_FOUND:0", "NLopt_FOUND:1", "Boost_FOUND:1", "nlohmann_json_FOUND:1"]
CXX = os.environ.get("CXX_VERIF", "g++")
BASEFLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-w", "-D_GLIBCXX_ASSERTIONS", "-pthread"]


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def gen_config():
    src = os.path.join(REPO, "include/BSMPT/config.h.in")
    d = os.path.join(BUILD, "gen/BSMPT")
    os.makedirs(d, exist_ok=True)
    on = {x.split(":")[0]: x.split(":")[1] == "1" for x in DEFS}
    txt = ""
    for line in open(src):
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)", line)
        if m:
            txt += ("#define %s%s\n" % (m.group(1), m.group(2))) if on.get(m.group(1)) else "/* #undef %s */\n" % m.group(1)
        else:
            txt += line
    p = os.path.join(d, "config.h")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)


def repo_sources():
    res = []
    skip = ("prog", "baryo_calculation", "Kfactors", "WallThickness", "LibCMAES")
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs[:] = sorted(d for d in dirs if d not in skip)
        for f in sorted(files):
            if f.endswith(".cpp") and f != "Minfunc_gen.cpp":
                res.append(os.path.relpath(os.path.join(root, f), REPO))
    return res


def ninja_escape(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(targets, verbose=False):
    """targets: list of check ids. Builds objects of /repo + the harness binaries."""
    gen_config()
    nd = os.path.join(BUILD, "n%d" % os.getpid())
    os.makedirs(nd, exist_ok=True)
    inc = ["-I" + os.path.join(BUILD, "gen"), "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3",
           "-I" + os.path.join(VERIF, "harness"), "-I" + REPO]
    ccache = shutil.which("ccache")
    L = []
    cxx = (ccache + " " if ccache else "") + CXX
    L.append("rule cc\n  command = %s $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % cxx)
    L.append("rule ar\n  command = rm -f $out && ar rcsD $out $in\n")
    L.append("rule ld\n  command = %s -o $out $pre $in $ldflags\n" % CXX)
    objs = {}

    def obj(src, flags):
        key = hashlib.sha1((src + "\0" + " ".join(flags)).encode()).hexdigest()[:10]
        o = os.path.join("o", os.path.basename(src) + "." + key + ".o")
        if o not in objs:
            objs[o] = True
            L.append("build %s: cc %s\n  flags = %s\n" % (o, ninja_escape(src), " ".join(BASEFLAGS + flags + inc)))
        return o

    outs = []
    need_libs = {}
    for t in targets:
        c = CHECKS[t]
        o = []
        excl = set(c.get("repo_exclude", []))
        for s, fl in c.get("repo_special", []):
            o.append(obj(os.path.join(REPO, s), fl))
            excl.add(s)
        for s in c["src"]:
            o.append(obj(os.path.join(VERIF, "harness", s), c.get("flags", []) + ["-fno-access-control"]))
        for s, fl in c.get("aux", []):
            o.append(obj(os.path.join(VERIF, s), fl))
        libs = ""
        if c.get("lib", True):
            lf = c.get("libflags", [])
            libs = "libbsmpt%s.a" % (hashlib.sha1(" ".join(lf).encode()).hexdigest()[:6] if lf else "")
            need_libs[libs] = lf
        out = "chk_" + t
        pre = ["-Wl,--whole-archive", libs, "-Wl,--no-whole-archive"] if c.get("libfirst") else []
        ldf = c.get("ldflags", []) + ([] if c.get("libfirst") else [libs] if libs else [])
        ldf += ["-lgsl", "-lgslcblas", "-lnlopt_cxx" if os.path.exists("/usr/lib/x86_64-linux-gnu/libnlopt_cxx.so") else "-lnlopt", "-lm", "-pthread", "-ldl"]
        L.append("build %s: ld %s | %s\n  ldflags = %s\n  pre = %s\n" % (out, " ".join(o), libs, " ".join(ldf), " ".join(pre)))
        outs.append(out)
        for p in c.get("progs", []):
            po = " ".join([obj(os.path.join(REPO, "src/prog", p + ".cpp"), [])] + [obj(os.path.join(VERIF, "harness", a), []) for a in c.get("progaux", [])])
            if ("prog", p) not in objs:
                L.append("build prog_%s: ld %s | libbsmpt.a\n  ldflags = %s libbsmpt.a -lgsl -lgslcblas -lnlopt -lm -pthread\n" % (p, po, " ".join(c.get("progflags", []))))
            objs[("prog", p)] = True
            need_libs["libbsmpt.a"] = []
            outs.append("prog_" + p)
    for lib, lf in need_libs.items():
        lo = [obj(os.path.join(REPO, s), lf) for s in repo_sources()]
        L.append("build %s: ar %s\n" % (lib, " ".join(lo)))
    open(os.path.join(nd, "build.ninja"), "w").write("\n".join(L) + "\nbuild all: phony %s\ndefault all\n" % " ".join(sorted(set(outs))))
    env = dict(os.environ)
    env.pop("CCACHE_DISABLE", None)
    env.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="2G", CCACHE_NOHASHDIR="1", LC_ALL="C.UTF-8",
               CCACHE_BASEDIR="/", CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime")
    env.pop("CCACHE_BASEDIR")
    os.makedirs(env["CCACHE_DIR"], exist_ok=True)
    r = subprocess.run(["ninja", "-C", nd, "-j%d" % NCPU], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("\n".join(l for l in r.stdout.splitlines() if "error" in l or "undefined" in l or "multiple def" in l)[:4000] or r.stdout[-3000:])
        shutil.rmtree(nd, ignore_errors=True)
        return None
    return nd


def load_known(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"KNOWN property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def run_shard(binary, args, env, outjson, timeout):
    return subprocess.Popen([binary] + args + ["--out", outjson], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            text=True, errors="replace", start_new_session=True)


def finish(p, timeout):
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, o


def read_case(path):
    try:
        return open(path, "rb").read().split(b"\0")[0].decode(errors="replace")
    except OSError:
        return ""


def check(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    nd = build([pid])
    if nd is None:
        die("harness for %s does not build against /repo" % pid)
    tb = time.time() - t0
    try:
        rc = run_check(pid, tier, c, nd, t0, tb)
    finally:
        shutil.rmtree(nd, ignore_errors=True)
    sys.exit(rc)


def run_check(pid, tier, c, nd, t0, tb):
    binary = os.path.join(nd, "chk_" + pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = os.path.join(nd, "work")
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ, BSMPT_REPO=REPO, VERIF_DIR=VERIF, CHK_WORK=work, CHK_BIN=nd, OMP_NUM_THREADS="1", LC_ALL="C")
    nsh = c.get("shards", NCPU)
    budget = c.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
    case_to = c.get("case_timeout", 120)
    procs = []
    for i in range(nsh):
        cf = os.path.join(work, "case.%d" % i)
        oj = os.path.join(work, "out.%d.json" % i)
        a = ["--tier", tier, "--shard", "%d/%d" % (i, nsh), "--casefile", cf, "--casetimeout", str(case_to)]
        procs.append((i, run_shard(binary, a, env, oj, budget), cf, oj))
    viol = []
    merged = {"cases": 0, "states": 0, "transitions": 0, "traces": 0, "evaluations": 0, "samples": [], "distinct": set(), "assumptions": [], "notes": {}}
    incomplete = False
    for i, p, cf, oj in procs:
        left = max(5, budget - (time.time() - t0 - tb))
        rc, o = finish(p, left)
        if rc is None or rc != 0:
            key = read_case(cf)
            hang = rc is None or rc == 97
            # re-run that one case alone (longer limit) before reporting
            oj2 = oj + ".retry"
            a = ["--tier", tier, "--only", key, "--casefile", cf + ".r", "--casetimeout", str(case_to * (3 if hang else 1))]
            rc2, o2 = finish(run_shard(binary, a, env, oj2, 0), case_to * 3 + 60) if key else (0, "")
            if rc2 == 0:
                if os.path.exists(oj2):
                    r = json.load(open(oj2))
                    viol += [(v["key"], v["what"]) for v in r["violations"]]
                incomplete = True
                if not hang:
                    # not reproduced alone: run the shard again from the start, it is deterministic
                    a = ["--tier", tier, "--shard", "%d/%d" % (i, nsh), "--casefile", cf, "--casetimeout", str(case_to)]
                    rc3, o3 = finish(run_shard(binary, a, env, oj, 0), left)
                    if rc3 == 0:
                        incomplete = False
                        o, rc = o3, 0
                    else:
                        viol.append((read_case(cf), "the process ended abnormally (status %s) in this case, reproducibly within its history: %s" % (rc3, o3[-400:])))
            else:
                viol.append((key, ("does not terminate" if (rc2 is None or rc2 == 97) else "abnormal termination (status %s)" % rc2) + ": " + (o2 or o or "")[-400:]))
            if rc != 0:
                continue
        try:
            r = json.load(open(oj))
        except (OSError, ValueError) as e:
            die("shard %d of %s gave no result: %s\n%s" % (i, pid, e, o[-2000:]))
        for k in ("cases", "states", "transitions", "traces", "evaluations"):
            merged[k] += r.get(k, 0)
        merged["distinct"].update(r.get("distinct", []))
        merged["samples"] += r.get("samples", [])[:3]
        for s in r.get("assumptions", []):
            if s not in merged["assumptions"]:
                merged["assumptions"].append(s)
        for k, v in r.get("notes", {}).items():
            merged["notes"][k] = max(merged["notes"].get(k, v), v) if k.startswith("max_") else merged["notes"].get(k, 0) + v
        incomplete |= bool(r.get("capped"))
        viol += [(v["key"], v["what"]) for v in r["violations"]]
    merged["traces"] = merged["traces"] or merged["cases"]  # every case runs on the implementation itself
    known = load_known(pid)
    new, seen_known = [], []
    for k, w in viol:
        hit = [kk for kk in known if kk[0] == k]
        if hit:
            if hit[0] not in seen_known:
                seen_known.append(hit[0])
        else:
            new.append((k, w))
    level = c["level"]
    cov = {"exhaustive": not incomplete}
    wall = time.time() - t0
    if level == "model_checking":
        cov.update(states=merged["states"], transitions=merged["transitions"], traces_validated_against_impl=merged["traces"])
    cov.update(evaluations=merged["evaluations"], distinct_nontrivial=len(merged["distinct"]),
               rule=c.get("rule", "distinct observed outcomes"), samples=[str(s)[:400] for s in merged["samples"][:8]])
    cov["cases"] = merged["cases"]
    cov["notes"] = merged["notes"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": merged["assumptions"] or c.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s %s: cases=%d states=%d transitions=%d traces=%d evaluations=%d distinct=%d exhaustive=%s build=%.1fs wall=%.1fs %s" % (
        pid, tier, merged["cases"], merged["states"], merged["transitions"], merged["traces"], merged["evaluations"], len(merged["distinct"]),
        not incomplete, tb, wall, merged["notes"]))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    if new:
        for n, (k, w) in enumerate(new[:5]):
            rp = os.path.join(OUT, "%s-%d.replay.json" % (pid, n))
            json.dump({"property": pid, "tier": tier, "case": k, "what": w}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("   case %s: %s" % (k, w[:600]))
        return 1
    return 0


def replay(f):
    r = json.load(open(f))
    pid = r["property"]
    nd = build([pid])
    if nd is None:
        die("does not build")
    work = os.path.join(nd, "work")
    os.makedirs(work)
    env = dict(os.environ, BSMPT_REPO=REPO, VERIF_DIR=VERIF, CHK_WORK=work, CHK_BIN=nd, LC_ALL="C")
    oj = os.path.join(work, "o.json")
    rc = subprocess.call([os.path.join(nd, "chk_" + pid), "--tier", r["tier"], "--only", r["case"], "--out", oj, "--casefile", os.path.join(work, "c")], env=env)
    if rc == 0:
        for v in json.load(open(oj))["violations"]:
            print(v["key"] + ": " + v["what"])
    else:
        print("status", rc)
    shutil.rmtree(nd)


def main():
    os.makedirs(BUILD, exist_ok=True)
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        nd = build(sorted(CHECKS))
        if nd:
            shutil.rmtree(nd, ignore_errors=True)
        sys.exit(0 if nd else 2)
    if a[:1] == ["check"] and len(a) >= 2 and a[1] in CHECKS:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        check(a[1], tier)
    if a[:1] == ["dev"]:  # development aid: keep the build directory
        print(build(a[1:]))
        return
    if a[:1] == ["replay"]:
        return replay(a[1])
    print(__doc__)
    sys.exit(2)


main()
