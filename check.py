#!/usr/bin/env python3
"""Runs the exhaustive exploration that decides one property.

    check.py PROPERTY --tier quick|thorough [--budget SECONDS] [--keep]
    check.py --setup                 builds every harness (warms the cache)
    check.py --replay FILE           re-runs one execution with its log

Everything is compiled from /repo's current working tree.  Exit code 0: the
property held on everything explored; 1: a VIOLATION line was printed.
"""
import argparse, concurrent.futures, fnmatch, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from checks import HARNESSES, PROPS  # noqa: E402

CC = "gcc"
BASE = ["-g1", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-fno-common", "-w", "-DHAVE_CONFIG_H", "-DUNIX_LIB",
        "-I" + os.path.join(VERIF, "mc")]
ASAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"]
ASAN_ENV = ("detect_leaks=0:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=0:"
            "quarantine_size_mb=8:malloc_context_size=6:allocator_may_return_null=1:"
            "detect_odr_violation=0:exitcode=99:max_allocation_size_mb=2048")


class BuildError(Exception):
    src = None  # the source that did not compile


def read(path):
    with open(path, "rb") as f:
        return f.read()


def header_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "modules"),
             os.path.join(VERIF, "mc"), os.path.join(VERIF, "harness")]
    for root in roots:
        for base, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for name in sorted(files):
                if name.endswith((".h", ".inc")):
                    path = os.path.join(base, name)
                    h.update(path.encode() + b"\0" + read(path))
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_one(job):
    src, flags, hh = job
    key = hashlib.sha256(("\0".join([src, hh, CC] + flags)).encode() + read(src)).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = "%s.%d.tmp.o" % (obj[:-2], os.getpid())
    lang = ["-x", "c++"] if src.endswith(".cpp") else []
    p = run([CC] + flags + lang + ["-c", src, "-o", tmp])
    if p.returncode != 0:
        e = BuildError("compiling %s failed:\n%s" % (src, p.stdout[-4000:]))
        e.src = src
        raise e
    os.replace(tmp, obj)
    return obj


def group_top(group):
    if group == "commons":
        return os.path.join(REPO, "src", "viriatum_commons")
    if group == "server":
        return os.path.join(REPO, "src", "viriatum")
    return os.path.join(REPO, "modules", group, "src", "viriatum_" + group)


def repo_sources(group):
    out = []
    top = group_top(group)
    for base, dirs, files in os.walk(top):
        dirs.sort()
        dirs[:] = [d for d in dirs if d not in ("jni", "_build", ".libs")]
        for name in sorted(files):
            if name.endswith(".c") and "win32" not in name:
                out.append(os.path.join(base, name))
    return out


def build(name, pool):
    """compiles and links one harness, returns the path of the binary"""
    h = HARNESSES[name]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hh = header_hash()
    opt = h.get("opt", ["-O1"])
    san = h.get("san", ASAN)
    jobs = []
    for group in h["groups"]:
        top = group_top(group)
        for src in repo_sources(group):
            rel = os.path.relpath(src, REPO)
            if any(fnmatch.fnmatch(rel, e) for e in h.get("exclude", [])):
                continue
            flags = BASE + opt + san + h.get("defines", []) + ["-I" + top]
            if os.path.basename(src) == "viriatum.c":
                flags = flags + ["-Dmain=viriatum_main"]
            flags = flags + h.get("file_flags", {}).get(os.path.basename(src), [])
            jobs.append((src, flags, hh))
    hflags = BASE + opt + san + h.get("defines", []) + ["-I" + os.path.join(REPO, "src")] + h.get("hflags", [])
    for src in h["sources"]:
        jobs.append((os.path.join(VERIF, "harness", src), hflags, hh))
    jobs.append((os.path.join(VERIF, "mc", "mc.c"), BASE + ["-O2"] + h.get("mcflags", []), hh))
    objs = list(pool.map(compile_one, jobs))
    key = hashlib.sha256(("\0".join(objs + h.get("ldflags", []) + h.get("libs", []))).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", name + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        p = run([CC] + san + h.get("ldflags", []) + objs + ["-o", tmp] + h.get("libs", ["-lpcre", "-lssl", "-lcrypto", "-lpthread", "-ldl", "-lm"]))
        if p.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, p.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


def known_findings():
    """finding lines: <property> | <scenario pattern> | <message regex> | <description>"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            parts = [p.strip() for p in line.split(" | ", 3)]
            if len(parts) == 4:
                out.append(parts)
    return out


def source_clean():
    p = run(["git", "-C", REPO, "rev-parse", "HEAD"])
    return p.stdout.strip()


def execute(exe, args, scratch, budget):
    env = dict(os.environ, ASAN_OPTIONS=ASAN_ENV, TMPDIR=scratch, LANG="C", TZ="UTC")
    env.pop("MALLOC_PERTURB_", None)
    try:
        p = subprocess.run([exe] + args, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=budget + 150, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "explorer timed out"


def only_in_variant(e, hname, pool):
    """a source of the repository that compiles, except with the options of a build of its own"""
    base = HARNESSES[hname].get("variant_of")
    if not base or not e.src or not e.src.startswith(REPO + os.sep):
        return False
    try:
        build(base, pool)
        return True
    except BuildError:
        return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    pool = concurrent.futures.ThreadPoolExecutor(max_workers=8)
    if a.setup:
        for name in HARNESSES:
            try:
                build(name, pool)
                print("built", name)
            except BuildError as e:
                print(e)  # the checks that need it say so
        return 0
    if a.replay:
        head = open(a.replay).read().split("\n", 2)
        meta = json.loads(head[1])
        try:
            exe = build(meta["harness"], pool)
        except BuildError as e:
            print(e)
            return 1 if head[0].startswith("build ") else 2
        if head[0].startswith("build "):
            return 0
        scratch = tempfile.mkdtemp(prefix="verif-")
        one = os.path.join(scratch, "one")
        open(one, "w").write(head[0] + "\n")
        rc, out = execute(exe, ["--replay", one], scratch, 120)
        print(out)
        shutil.rmtree(scratch, ignore_errors=True)
        return rc
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = PROPS[pid]
    budget = a.budget or (float(prop.get("quick_s", 240)) if tier == "quick" else float(prop.get("thorough_s", 600)))
    parts = prop["runs"]
    results = []
    failures = []
    left = budget
    for i, (hname, only) in enumerate(parts):
        # an equal share of what is left, or half of it for a part that needs more
        share = max(left / (len(parts) - i), left / 2 if i < len(parts) - 1 else left)
        scratch = tempfile.mkdtemp(prefix="verif-")
        os.chmod(scratch, 0o755)
        try:
            exe = build(hname, pool)
            began = time.time()
            out = os.path.join(scratch, "out.json")
            args = ["--" + tier, "--out", out, "--only", only, "--budget", str(share)]
            args += ["--timeout", str(prop.get("timeout", 20))]
            rc, text = execute(exe, args, scratch, share)
            left = max(left - (time.time() - began), 5.0)
            if not os.path.exists(out):
                failures.append(dict(harness=hname, scenario="-", kind="explorer", choices="", confirmed=True,
                                     message="the explorer did not finish (exit %d): %s" % (rc, text[-1500:]), log=""))
                continue
            res = json.load(open(out))
            res["harness"] = hname
            results.append(res)
            for f in res["failures"]:
                f["harness"] = hname
                if f["confirmed"]:
                    failures.append(f)
                else:
                    print("note: an unconfirmed failure of %s was dropped: %s" % (f["scenario"], f["message"][:200]))
        except BuildError as e:
            if only_in_variant(e, hname, pool):
                failures.append(dict(harness=hname, scenario="build", kind="build", choices="", confirmed=True, message=str(e), log=""))
                continue
            # code that no longer builds against the harness gives no answer
            print(e)
            return 2
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    # known findings are matched by property, scenario and message
    known = known_findings()
    hits = {}
    violations = []
    for f in failures:
        text = f["message"]
        for k in known:
            if k[0] == pid and fnmatch.fnmatch(f["scenario"], k[1]) and re.search(k[2], text, re.S):
                hits.setdefault(k[3], f)
                break
        else:
            violations.append(f)
    for desc in hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for i, f in enumerate(violations[:8]):
        path = os.path.join(VERIF, "replays", "%s-%d.txt" % (pid, i))
        with open(path, "w") as out:
            out.write("%s %s %s\n" % (f["scenario"], tier, f["choices"] or "-"))
            out.write(json.dumps(dict(harness=f["harness"], property=pid)) + "\n")
            out.write(f["message"] + "\n\n" + f["log"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  scenario %s, choices [%s]: %s" % (f["scenario"], f["choices"], f["message"][:1200]))
        if f["log"]:
            print("    " + f["log"][-3000:].replace("\n", "\n    "))

    tot = lambda k: sum(r[k] for r in results)  # noqa: E731
    samples = []
    for r in results:
        for s in r["samples"]:
            samples.append(dict(scenario=s["scenario"], choices=s.get("choices", "")[:600], trace=s["trace"][:1200]))
    capped = any(r["capped"] for r in results)
    scen = [dict(harness=r["harness"], **s) for r in results for s in r["scenarios"]]
    cov = dict(evaluations=tot("executions") if results else 0,
               distinct_nontrivial=(tot("executions") - tot("trivial")) if results else 0,
               rule=prop.get("rule", "every execution is a distinct choice vector of the enumerated tree; executions "
                             "in which the harness exercised no operation or fault are counted as trivial"),
               samples=samples[:8], exhaustive=(not capped),
               choice_points=tot("choice_points") if results else 0, transitions=tot("steps") if results else 0,
               states=tot("states") if results else 0, outcomes=tot("outcomes") if results else 0,
               max_depth=max([r["max_depth"] for r in results] or [0]), scenarios=scen)
    if not cov["samples"]:
        cov["samples"] = [dict(scenario="-", trace="no sample")]
    level = prop["level"]
    if level == "model_checking":
        # every explored trace is an execution of the implementation itself
        cov["traces_validated_against_impl"] = cov.pop("evaluations")
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=prop.get("assumptions", []) + (["the enumeration was cut by the time budget: coverage.exhaustive is false"] if capped else []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d choice points, %d transitions, %d states, %d outcomes%s, %.1fs: %s" % (
        pid, tier, tot("executions") if results else 0, cov["choice_points"], cov["transitions"], cov["states"], cov["outcomes"],
        " (cut by budget)" if capped else "", time.time() - t0, "%d violation(s)" % len(violations) if violations else "held"))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
