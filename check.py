#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--only FAMILY-PREFIX] [--unit NAME]
Builds the harnesses of one property against /repo's working tree, explores, and reports."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, argparse

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from registry import CHECKS  # noqa: E402

BUILD = os.path.join(V, "build")
CACHE = os.path.join(BUILD, "cache")
CXX = "clang++-18"
ARCH = {
    "sse2": ["-mno-sse3", "-msse2"],
    "sse41": ["-mno-sse3", "-msse4.1"],
    "avx": ["-mno-sse3", "-msse4.2", "-mavx"],
    "avx2": ["-mno-sse3", "-msse4.2", "-mavx2", "-mfma"],
    "avx512": ["-mno-sse3", "-msse4.2", "-mavx2", "-mfma", "-mavx512f", "-mavx512cd", "-mavx512bw", "-mavx512dq",
               "-mavx512vl"],
}
CPUFLAG = {"sse2": "sse2", "sse41": "sse4_1", "avx": "avx", "avx2": "avx2", "avx512": "avx512vl"}
BASE = ["-std=gnu++17", "-DNDEBUG", "-Wno-everything", "-I" + os.path.join(V, "harness"), "-ffp-contract=fast"]


def cpu_has(arch):
    with open("/proc/cpuinfo") as f:
        for l in f:
            if l.startswith("flags"):
                return CPUFLAG[arch] in l.split()
    return arch == "sse2"


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


_sha = {}


def csha(path):
    if path not in _sha:
        try:
            _sha[path] = sha(path)
        except OSError:
            _sha[path] = "missing"
    return _sha[path]


def compile_one(src, flags):
    """Content-addressed object cache: an object is reused only if the command and the content of every file the
    compiler read for it are unchanged."""
    cmd = [CXX] + flags + ["-c", src]
    key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:24]
    obj, dep = os.path.join(CACHE, key + ".o"), os.path.join(CACHE, key + ".json")
    if os.path.exists(obj) and os.path.exists(dep):
        try:
            d = json.load(open(dep))
            if all(csha(p) == h for p, h in d.items()):
                return obj, None
        except (ValueError, OSError):
            pass
    dfile = obj + ".d%d" % os.getpid()
    tmpo = obj + ".t%d" % os.getpid()
    r = subprocess.run(cmd + ["-MD", "-MF", dfile, "-o", tmpo], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        L = r.stdout.split("\n")
        keep = [L[i:i + 3] for i in range(len(L)) if "error" in L[i]][:6]
        return None, "compile failed: %s\n%s" % (src, "\n".join(sum(keep, []))[:4000])
    deps = open(dfile).read().split(":", 1)[1].replace("\\\n", " ").split()
    os.remove(dfile)
    json.dump({p: csha(p) for p in deps}, open(dep + ".t%d" % os.getpid(), "w"))
    os.replace(tmpo, obj)
    os.replace(dep + ".t%d" % os.getpid(), dep)
    return obj, None


def unit_jobs(u):
    arch = ARCH[u.get("arch", "sse2")]
    opt = u.get("opt", "-O1")
    common = BASE + [opt] + arch + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    common += ["-D" + d for d in u.get("defs", [])]
    san = u.get("san", [])
    jobs = []
    for s in u["src"]:
        p, extra = (s, []) if isinstance(s, str) else (s[0], s[1])
        jobs.append((os.path.join(V, "harness", p), common + san + u.get("flags", []) + extra))
    for s in u.get("repo", []):
        p, extra = (s, []) if isinstance(s, str) else (s[0], s[1])
        fl = common + (u["repo_san"] if "repo_san" in u else san) + u.get("repo_flags", []) + extra
        if p.endswith(".c"):
            fl = [f for f in fl if not f.startswith("-std=gnu++")]
        jobs.append((os.path.join(REPO, p), fl))
    return jobs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--unit")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--keep", action="store_true", help="leave the executables")
    ap.add_argument("--compile-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:  # nothing to build ahead: every check compiles what it needs from the current tree
        for t in (CXX, "python3"):
            if not shutil.which(t):
                print("missing tool", t)
                sys.exit(2)
        os.makedirs(CACHE, exist_ok=True)
        return
    pid = a.id
    chk = CHECKS[pid]
    thorough = a.tier == "thorough"
    os.makedirs(CACHE, exist_ok=True)
    units = [u for u in chk["units"] if cpu_has(u.get("arch", "sse2"))]
    if not thorough:
        units = [u for u in units if not u.get("thorough_only")]
    if a.unit:
        units = [u for u in chk["units"] if u["name"] == a.unit]
    rep = {}
    if a.replay:
        for l in open(a.replay):
            k, _, v = l.rstrip("\n").partition(" ")
            rep.setdefault(k, v)
        units = [u for u in chk["units"] if u["name"] == rep["unit"]]
    skipped = [u["name"] for u in chk["units"] if not cpu_has(u.get("arch", "sse2"))]

    # build everything in parallel
    all_jobs = []
    for u in units:
        u["_jobs"] = unit_jobs(u)
        for j in u["_jobs"]:
            if j not in all_jobs:
                all_jobs.append(j)
    objs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {ex.submit(compile_one, s, f): (s, tuple(f)) for s, f in all_jobs}
        for f in cf.as_completed(futs):
            o, err = f.result()
            if err:
                print(err)
                print("ERROR: %s: cannot build the harness against the current tree" % pid)
                sys.exit(3)
            objs[futs[f]] = o
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    try:
        for u in units:
            u["_exe"] = os.path.join(work, u["name"])
            link = [CXX] + [objs[(s, tuple(f))] for s, f in u["_jobs"]] + u.get("link_san", u.get("san", [])) + \
                u.get("link", []) + ["-o", u["_exe"], "-lpthread", "-lm"]
            r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-6000:])
                print("ERROR: %s: cannot link the harness" % pid)
                sys.exit(3)
        tb = time.time()
        if a.verbose:
            print("built in %.1fs" % (tb - t0))
        if a.compile_only:
            return
        sys.exit(explore(pid, chk, units, skipped, a, thorough, work, rep, t0))
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def env_for(u):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:" \
                        "max_allocation_size_mb=4096:detect_stack_use_after_return=0:handle_abort=1" % u.get("leaks", 0)
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
    e.update(u.get("env", {}))
    return e


def known():
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def explore(pid, chk, units, skipped, a, thorough, work, rep, t0):
    if a.replay:
        u = units[0]
        d = os.path.join(work, "t")
        os.makedirs(d)
        r = subprocess.run([u["_exe"], "--replay", a.replay, "--tmp", d] +
                           (["--thorough"] if rep.get("tier") == "thorough" else []), env=env_for(u), cwd=d)
        if r.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return r.returncode
    tot = dict(paths=0, ops=0, nodes=0, evals=0, outcomes=0)
    samples, notes, fails, fams = [], [], [], []
    complete, infra = True, 0
    budget = 3300 if thorough else 760
    for u in units:
        d = os.path.join(work, "t-" + u["name"])
        os.makedirs(d)
        left = max(20, budget - (time.time() - t0))
        cmd = [u["_exe"], "--out", os.path.join(d, "out.json"), "--tmp", d, "--deadline", str(left),
               "--workers", str(u.get("workers", 8))]
        if thorough:
            cmd.append("--thorough")
        if a.only:
            cmd += ["--only", a.only]
        r = subprocess.run(cmd, env=env_for(u), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        try:
            res = json.load(open(os.path.join(d, "out.json")))
        except (OSError, ValueError):
            print(r.stdout[-3000:])
            print("ERROR: %s: harness %s gave no result (exit %s)" % (pid, u["name"], r.returncode))
            return 4
        if res["infra"]:
            for n in os.listdir(d):
                if n.startswith("err"):
                    print(open(os.path.join(d, n), errors="replace").read()[-2000:])
            infra = 1
        for k in tot:
            tot[k] += res[k]
        complete &= res["complete"]
        samples += [u["name"] + ": " + s for s in res["samples"]]
        notes += res["notes"]
        fams += ["%s/%s(%d roots)" % (u["name"], f["name"], f["roots"]) for f in res["families"]]
        for f in res["fails"]:
            f["unit"] = u["name"]
            fails.append(f)
        if a.verbose:
            print(u["name"], {k: v for k, v in res.items() if k in ("paths", "ops", "nodes", "evals", "outcomes",
                                                                     "complete", "wall")})
        subprocess.run(["chmod", "-R", "u+rwX", d])
    kn = [k for k in known() if k[0] == pid]
    nviol, shown = 0, set()
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, f in enumerate(fails):
        ukey = f["unit"] + "/" + f["key"]
        hit = [k for k in kn if k[1] in (f["key"], ukey)]
        if hit:
            if hit[0] not in shown:
                shown.add(hit[0])
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2]))
            continue
        nviol += 1
        if nviol > (200 if a.verbose else 5):
            continue
        rp = os.path.join(rdir, "%s-%s-%d.replay" % (pid, a.tier, nviol))
        with open(rp, "w") as o:
            o.write("property %s\nunit %s\ntier %s\nfamily %s\nroot %d\nchoices %s\nkey %s\nmessage %s\n" % (
                pid, f["unit"], a.tier, f["family"], f["root"], " ".join(map(str, f["choices"])), f["key"],
                f["msg"].replace("\n", " ")))
            o.write("case %s\n" % f["desc"].replace("\n", " "))
        print("%s [%s] %s: %s" % (f["kind"], ukey, f["msg"][:300], f["desc"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if nviol > 5:
        print("(%d distinct violations)" % nviol)
    wall = time.time() - t0
    cov = {
        "states": tot["nodes"], "transitions": max(tot["ops"], 0),
        "traces_validated_against_impl": tot["paths"],
        "samples": samples[:12] or [f["desc"][:300] for f in fails[:3]] or ["-"],
        "evaluations": tot["evals"], "distinct_nontrivial": tot["outcomes"],
        "rule": "states: nodes of the explored choice tree (configuration + history prefix); transitions: operations of "
                "the real code executed and compared with the reference; traces: complete executions of the real code "
                "(the exploration runs the implementation itself, so every trace is one); evaluations: individual "
                "element/operand comparisons; distinct_nontrivial: distinct digests of observed outputs",
        "exhaustive": bool(complete), "families": fams, "bounds": chk.get("bounds", ""),
    }
    if not complete:
        cov["capped"] = "time cap reached; exploration order is by root, later roots were not explored"
    if skipped:
        cov["skipped_units"] = skipped
    if notes:
        cov["notes"] = notes[:10]
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1")), "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not a.only and not a.unit:
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
    print("%s %s: %d states, %d transitions, %d executions, %d evaluations, %d distinct outcomes, complete=%s, %.1fs" % (
        pid, a.tier, tot["nodes"], tot["ops"], tot["paths"], tot["evals"], tot["outcomes"], complete, wall))
    if nviol:
        return 1
    if infra:
        print("ERROR: %s: infrastructure error" % pid)
        return 5
    return 0


if __name__ == "__main__":
    main()
