#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, runs it and writes the evidence file.

usage: check.py ID             run the check (VERIF_SEED, VERIF_TIER from the environment)
       check.py ID --replay F  replay a saved case
       check.py --setup        build every harness (fills the build cache)
exit:  0 held on everything explored, 1 violation (VIOLATION line on stdout), anything else: the check itself failed
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from config import CHECKS, MODES, EXTRA, EXTRA_LD  # noqa: E402

def lib_sources():
    """Every library source that takes part in the Linux build (new files included)."""
    out = []
    for top in ("src/libcopp", "src/libcotask"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), REPO)
                if not f.endswith(".cpp"):
                    continue
                if "windows" in f or "split_segment" in f or "fiber" in f or "/fcontext/" in p:
                    continue
                out.append(p)
    for n in ("jump", "make", "ontop"):
        out.append("src/libcopp/fcontext/asm/%s_x86_64_sysv_elf_gas.S" % n)
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for top in ("include", "src"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fp:
                    h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()


def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()


def gen_features(dst):
    """Instantiate libcopp_build_features.h.in with the options the shipped build of this sandbox uses."""
    src = os.path.join(REPO, "include/libcopp/utils/config/libcopp_build_features.h.in")
    ref = os.path.join(VERIF, "pbt/features.defs")
    on = {}
    with open(ref) as fp:
        for line in fp:
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            k, _, v = line.partition("=")
            on[k] = v
    out = []
    with open(src) as fp:
        for line in fp:
            m = re.match(r"#\s*cmakedefine01\s+(\w+)", line)
            if m:
                out.append("#define %s %s\n" % (m.group(1), "1" if on.get(m.group(1), "0") not in ("0", "") else "0"))
                continue
            m = re.match(r"#\s*cmakedefine\s+(\w+)(.*)", line)
            if m:
                if on.get(m.group(1), "0") not in ("0", ""):
                    rest = re.sub(r"@(\w+)@", lambda mm: on.get(mm.group(1), ""), m.group(2))
                    out.append("#define %s%s\n" % (m.group(1), rest))
                else:
                    out.append("/* #undef %s */\n" % m.group(1))
                continue
            line = re.sub(r"@(\w+)@", lambda mm: on.get(mm.group(1), ""), line)
            line = re.sub(r"\$\{(\w+)\}", lambda mm: on.get(mm.group(1), ""), line)
            out.append(line)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as fp:
        fp.write("".join(out))


class BuildError(Exception):
    pass


def run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def build(targets):
    """targets: list of (harness, mode); returns {(harness, mode): binary}"""
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    gen = os.path.join(BUILD, "gen")
    gh = file_hash(os.path.join(VERIF, "pbt/features.defs"),
                   os.path.join(REPO, "include/libcopp/utils/config/libcopp_build_features.h.in"))
    gen = os.path.join(BUILD, "gen-" + gh[:12])
    hdr = os.path.join(gen, "libcopp/utils/config/libcopp_build_features.h")
    if not os.path.exists(hdr):
        tmp = gen + ".%d" % os.getpid()
        gen_features(os.path.join(tmp, "libcopp/utils/config/libcopp_build_features.h"))
        try:
            os.rename(tmp, gen)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    jobs = {}   # object path -> command
    links = {}  # binary -> (objects, mode)
    result = {}
    rt_hash = file_hash(*[os.path.join(VERIF, "pbt", f) for f in ("pbt.h", "pbt.cpp", "alt_features.h")])
    common = [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness")))
              if f.endswith(".h")]
    ch = file_hash(*common) if common else ""
    for harness, mode in targets:
        m = MODES[mode]
        extra = EXTRA.get(harness, [])
        key = hashlib.sha256(("|".join([th, json.dumps(m, sort_keys=True), json.dumps(extra + EXTRA_LD.get(harness, [])), gh])).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, "%s-%s" % (mode, key))
        os.makedirs(d, exist_ok=True)
        inc = ["-I" + os.path.join(gen), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "pbt"),
               "-I" + os.path.join(VERIF, "harness")]
        base = m["cflags"] + extra + ["-DLIBCOPP_API_COPP_NATIVE=1", "-DLIBCOPP_API_COTASK_NATIVE=1"] + inc
        objs = []
        for s in lib_sources():
            o = os.path.join(d, s.replace("/", "_") + ".o")
            objs.append(o)
            if os.path.exists(o):
                continue
            src = os.path.join(REPO, s)
            if s.endswith(".S"):
                jobs[o] = [m["cc"], "-x", "assembler-with-cpp"] + m["asflags"] + ["-c", src]
            else:
                jobs[o] = [m["cxx"], "-std=c++20"] + base + ["-c", src]
        hs = os.path.join(VERIF, "harness", harness + ".cpp")
        hk = hashlib.sha256((rt_hash + ch + file_hash(hs)).encode()).hexdigest()[:12]
        ho = os.path.join(d, "%s-%s.o" % (harness, hk))
        ro = os.path.join(d, "pbt-%s.o" % rt_hash[:12])
        if not os.path.exists(ho):
            jobs[ho] = [m["cxx"], "-std=c++20"] + base + m.get("hflags", []) + ["-c", hs]
        if not os.path.exists(ro):
            jobs[ro] = [m["cxx"], "-std=c++20", "-O2", "-g", "-I" + os.path.join(VERIF, "pbt")] + m.get("rtflags", []) + \
                       ["-c", os.path.join(VERIF, "pbt/pbt.cpp")]
        b = os.path.join(d, "%s-%s" % (harness, hk))
        result[(harness, mode)] = b
        if not os.path.exists(b):
            links[b] = (objs + [ho, ro] + EXTRA_LD.get(harness, []), m)

    def one(o):
        tmp = o + ".%d.tmp" % os.getpid()
        run(jobs[o] + ["-o", tmp], None)
        os.rename(tmp, o)

    order = sorted(jobs, key=lambda o: 0 if "harness" in jobs[o][-1] else 1)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(one, order))

    def link(b):
        objs, m = links[b]
        tmp = b + ".%d.tmp" % os.getpid()
        run([m["cxx"]] + m["ldflags"] + objs + ["-o", tmp, "-lpthread"], None)
        os.rename(tmp, b)

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(link, sorted(links)))
    return result


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:"
                       "allocator_may_return_null=1:handle_segv=1:use_sigaltstack=1:symbolize=1:"
                       "malloc_context_size=6:quarantine_size_mb=32:detect_odr_violation=0")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
ENV["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:report_signal_unsafe=0:history_size=4"


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as fp:
            for line in fp:
                m = re.match(r"finding: property=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    out.append(m.group(2))
    return out


def main():
    if sys.argv[1:2] == ["--setup"]:
        # every check builds what it needs from the current tree; nothing is prepared here beyond a tool check
        for t in ("clang++", "g++", "clang", "gcc"):
            if shutil.which(t) is None:
                print("missing tool " + t, file=sys.stderr)
                return 2
        print("%d checks" % len(CHECKS))
        return 0
    if sys.argv[1:2] == ["--build-all"]:
        targets = []
        for pid, spec in CHECKS.items():
            for r in spec["runs"]:
                t = (r["harness"], r["mode"])
                if t not in targets:
                    targets.append(t)
        build(targets)
        print("built %d binaries" % len(targets))
        return 0
    pid = sys.argv[1]
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    if sys.argv[2:3] == ["--replay"]:
        with open(sys.argv[3]) as fp:
            txt = fp.read()
        mv = re.search(r"^variant: (\S+)", txt, re.M)
        mh = re.search(r"^harness: (\S+)", txt, re.M)
        for r in spec["runs"]:
            if r["mode"] == mv.group(1) and r["harness"] == mh.group(1):
                t = (r["harness"], r["mode"])
                return subprocess.run([build([t])[t], "--replay", sys.argv[3]], env=ENV).returncode
        print("no such run", file=sys.stderr)
        return 2
    tier_runs = [(i, r) for i, r in enumerate(spec["runs"]) if r["cases"][0 if tier == "quick" else 1]]
    not_built = []
    try:
        bins = build([(r["harness"], r["mode"]) for _, r in tier_runs if r["mode"] != "gccalt"])
    except BuildError as e:
        print("BUILD FAILED:\n" + str(e), file=sys.stderr)
        return 2
    for _, r in tier_runs:
        if r["mode"] == "gccalt":
            # a tree that does not compile with the other build options: nothing is claimed about them
            try:
                bins.update(build([(r["harness"], r["mode"])]))
            except BuildError as e:
                not_built.append("%s/%s" % (r["harness"], r["mode"]))
                print("not built with the other build options: %s" % r["harness"], file=sys.stderr)
    tier_runs = [(i, r) for i, r in tier_runs if (r["harness"], r["mode"]) in bins]
    build_s = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    runs = []
    violation = None
    for i, r in tier_runs:
        b = bins[(r["harness"], r["mode"])]
        out = os.path.join(BUILD, "out-%s-%d-%d.json" % (pid, i, os.getpid()))
        rep = os.path.join(VERIF, "replays", "%s-%s-%s.txt" % (pid, r["harness"], r["mode"]))
        n = r["cases"][0 if tier == "quick" else 1]
        wall = (r.get("wall", (200, 1500)))[0 if tier == "quick" else 1]
        if os.path.exists(rep):
            os.unlink(rep)
        p = subprocess.run([b, "--seed", str(seed * 1009 + i), "--cases", str(n), "--workers", "8", "--wall", str(wall),
                            "--out", out, "--replay-out", rep, "--property", pid, "--variant", r["mode"]], env=ENV)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("runner failed with status %d" % p.returncode, file=sys.stderr)
            return 2
        with open(out) as fp:
            runs.append(json.load(fp))
        os.unlink(out)
        if p.returncode == 1:
            violation = (rep, runs[-1]["message"])
            break
    samples = []
    for r in runs:
        for s in r["samples"][:2]:
            samples.append("[%s/%s]\n%s" % (r["harness"], r["variant"], s))
    cov = {
        "evaluations": sum(r["evaluations"] for r in runs),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs),
        "rule": " || ".join(sorted(set(r["rule"] for r in runs))),
        "samples": samples or ["(stopped at the first failing case, see the replay file)"],
        "runs": [{k: r[k] for k in ("harness", "variant", "evaluations", "requested", "distinct_nontrivial", "wall_s",
                                     "corpus", "edges", "labels")} for r in runs],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0, "build_s": round(build_s, 2)}
    if not_built:
        ev["not_built"] = not_built
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    for k in load_known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violation:
        print(violation[1])
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
          (pid, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
