#!/usr/bin/env python3
"""Runs the property-based check of one property against /repo's working tree.

    python3 check.py C01                 VERIF_SEED (default 1), VERIF_TIER=quick|thorough (default quick)
    python3 check.py C01 --thorough
    python3 check.py C01 --replay FILE   runs one recorded failing case again
    python3 check.py --setup             checks that the toolchain is there

Exit 0: the property held on everything explored. Exit 1 with a line VIOLATION property=<id> replay=<path>: it does not.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # overridden only while developing the checks
BUILD = os.path.join(HERE, "_build")
HARNESS = os.path.join(HERE, "harness")
DEADLINE_QUICK = 780.0
T0 = time.time()

SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-D_GLIBCXX_ASSERTIONS"]
PATTERN = ["-ftrivial-auto-var-init=pattern"]
# Build flavours: how the library and the harness are compiled.
FLAVOURS = {
    "fast": ["g++", "-O2", "-DNDEBUG"] + PATTERN,
    "fast_ext": ["g++", "-O2", "-DNDEBUG", "-DMSHIO_EXT_NANOSPLINE"] + PATTERN,
    "asan": ["g++", "-DNDEBUG"] + SAN + PATTERN,
    "asan_ext": ["g++", "-DNDEBUG", "-DMSHIO_EXT_NANOSPLINE"] + SAN + PATTERN,
    "dbg": ["g++"] + SAN + PATTERN,
    "dbg_ext": ["g++", "-DMSHIO_EXT_NANOSPLINE"] + SAN + PATTERN,
    "tsan": ["g++", "-DNDEBUG", "-O1", "-g", "-fsanitize=thread"],
    "both": ["g++", "-DNDEBUG"] + SAN + PATTERN,
    "work": ["g++", "-O1", "-DNDEBUG"],  # the library with a counter in every basic block
    "work_ext": ["g++", "-O1", "-DNDEBUG", "-DMSHIO_EXT_NANOSPLINE"],
    "fuzz": ["clang++", "-DNDEBUG", "-DMSHIO_EXT_NANOSPLINE"] + SAN,
    "fuzz_dbg": ["clang++"] + SAN,
}

# property -> list of (flavour, scale of the number of cases in the quick tier, in the thorough tier)
DEFAULT = [("fast", 20, 60), ("asan", 4, 10), ("asan_ext", 4, 10)]
PLAN = {
    "C01": [("fast", 20, 60), ("fast_ext", 2, 10), ("asan", 4, 10), ("asan_ext", 4, 10)],
    "C10": [("asan", 1, 1), ("asan_ext", 1, 1), ("dbg", 1, 1), ("dbg_ext", 1, 1)],
    "C11": [("asan", 1, 1), ("asan_ext", 1, 1), ("dbg_ext", 0.5, 1)],
    "C16": [("asan", 1, 1), ("asan_ext", 0.5, 0.5)],
    "C18": [("fast", 4, 20), ("asan", 2, 6), ("asan_ext", 1, 4), ("tsan", 2, 6)],
    "C09": [("fast", 12, 40), ("asan", 3, 6), ("asan_ext", 3, 6)],
    "C13": [("fast", 16, 60), ("asan", 3, 10), ("asan_ext", 3, 10)],
    "C14": [("fast", 14, 60), ("asan", 3, 10), ("asan_ext", 3, 10)],
    "C15": [("fast", 14, 60), ("asan", 3, 10), ("asan_ext", 3, 10)],
    "C17": [("fast", 14, 60), ("asan", 3, 10), ("asan_ext", 3, 10)],
    "C24": [("fast", 6, 40), ("asan", 2, 8), ("asan_ext", 2, 8)],
    "C19": [("asan", 1, 1), ("fast_ext", 1, 1)],
    "C20": [("asan_ext", 1, 1), ("asan", 1, 1), ("both", 1, 1)],
    "C21": [("asan", 1, 1)],
    "C22": [("asan", 1, 1)],
    "C25": [("asan", 1, 1), ("asan_ext", 1, 1), ("dbg_ext", 1, 1)],
    "C26": [("fast", 6, 20), ("asan", 2, 3), ("asan_ext", 2, 3)],
    "C28": [("fast", 8, 60), ("asan", 1.5, 6), ("asan_ext", 1.5, 6)],
    "C30": [("fast", 4, 20), ("asan", 1, 4), ("asan_ext", 1, 4)],
    "C27": [("work", 0.6, 2), ("work_ext", 0.6, 2)],
}
# property -> (oracle, [(flavour, processes, runs per process quick, thorough)])
FUZZ = {
    "C10": (10, [("fuzz", 4, 60000, 3000000), ("fuzz_dbg", 4, 60000, 3000000)]),
    "C24": (24, [("fuzz", 8, 50000, 2000000)]),
    "C25": (25, [("fuzz", 8, 60000, 2000000)]),
}
LEVEL = {"C11": "fault_enumeration", "C16": "fault_enumeration", "C26": "fault_enumeration"}

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=98:detect_stack_use_after_return=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
ENV["LC_ALL"] = "C"


class BuildError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def left():
    return DEADLINE - (time.time() - T0)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(root, patterns):
    files = []
    for pat in patterns:
        files += glob.glob(os.path.join(root, pat), recursive=True)
    return digest(*[x for f in sorted(set(files)) if os.path.isfile(f) for x in (os.path.relpath(f, root), read(f))])


def repo_headers():
    return tree_hash(REPO, ["src/**/*.h", "src/**/*.hpp", "src/**/*.inl", "include/**/*"])


def harness_headers():
    return tree_hash(HARNESS, ["*.h", "shim/**/*"])


def run_build(cmd, out):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    if r.returncode != 0:
        if os.path.exists(tmp):
            os.remove(tmp)
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    os.replace(tmp, out)
    return out


def flags(flavour):
    f = FLAVOURS[flavour]
    return [f[0], "-std=gnu++17", "-w", "-pthread"] + f[1:]


def obj_job(src, fl, salt, extra=()):
    """(path of the object file, command or None if it is built already)"""
    cmd = fl + list(extra) + ["-I" + os.path.join(REPO, "include"), "-c", src]
    key = digest(" ".join(cmd), read(src), salt)
    out = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out, None
    return out, cmd


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))


def plan_build(prop, flavour):
    """Objects and link step of one program: ([(object, command)], link command without objects, name)"""
    fl = flags(flavour)
    rh, hh = repo_headers(), harness_headers()
    jobs, extra, link = [], [], list(fl)
    tu_src = os.path.join(HARNESS, "props", prop.lower() + ".cpp")
    lib_fl = list(fl)
    if flavour.startswith("fuzz"):
        lib_fl = fl + ["-fsanitize=fuzzer-no-link"]
        link = fl + ["-fsanitize=fuzzer"]
        tu_src = os.path.join(HARNESS, "fuzz.cpp")
        extra = ["-DVERIF_ORACLE=%d" % FUZZ[prop][0]]
    if flavour.startswith("work"):
        lib_fl = fl + ["-fsanitize-coverage=trace-pc"]
    for s in lib_sources():
        jobs.append(obj_job(s, lib_fl, rh))
    if flavour == "both":
        extra = ["-DVERIF_BOTH"]
        ren = ["-Dmshio=mshio_ext", "-DMSHIO_EXT_NANOSPLINE"]
        for s in lib_sources():
            jobs.append(obj_job(s, lib_fl, rh, ren))
        jobs.append(obj_job(os.path.join(HARNESS, "ext_side.cpp"), fl, rh + hh, ren))
    if prop == "C21":
        extra = ['-DVERIF_INSPECT="%s"' % inspect_path(flavour)]
    if prop == "C22":
        binding = os.path.join(REPO, "python", "pymshio.cpp")
        extra = ["-I" + os.path.join(HARNESS, "shim"), '-DVERIF_BINDING="%s"' % binding]
        hh += digest(read(binding))
    jobs.append(obj_job(tu_src, fl, rh + hh, extra))
    return jobs, link


def inspect_path(flavour):
    return os.path.join(BUILD, "bin", "msh_inspect-" + flavour)


def compile_all(jobs):
    todo = {}
    for out, cmd in jobs:
        if cmd:
            todo[out] = cmd
    # Slow ones (the harness) first.
    order = sorted(todo.items(), key=lambda kv: 0 if HARNESS in kv[1][-1] else 1)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(run_build, cmd, out) for out, cmd in order]:
            f.result()


def program(prop, flavour, jobs, link):
    objs = [o for o, _ in jobs]
    key = digest(" ".join(link + objs))
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (prop, flavour, key))
    if not os.path.exists(out):
        run_build(link + objs, out)
    else:
        os.utime(out)
    return out


def build_inspect(flavour):
    fl = flags(flavour)
    rh = repo_headers()
    src = os.path.join(REPO, "examples", "msh_inspect.cpp")
    jobs = [obj_job(s, fl, rh) for s in lib_sources()] + [obj_job(src, fl, rh)]
    compile_all(jobs)
    return run_build(fl + [o for o, _ in jobs], inspect_path(flavour))


def build_locale():
    """A C locale with a decimal comma, for C17. Without it (no localedef here) that part is left out."""
    d = os.path.join(BUILD, "locale")
    target = os.path.join(d, "de_DE.UTF-8")
    if not os.path.isdir(target):
        os.makedirs(d, exist_ok=True)
        tmp = "%s.%d" % (target, os.getpid())
        try:
            subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            os.rename(tmp, target)
        except (OSError, subprocess.TimeoutExpired):
            shutil.rmtree(tmp, ignore_errors=True)
    ENV["LOCPATH"] = d


def prune():
    """Keeps the build cache small."""
    files = []
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(f)
                files.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    total = sum(f[1] for f in files)
    for m, size, f in sorted(files):
        if total < 4 << 30:
            break
        if time.time() - m < 3600:
            continue
        try:
            os.remove(f)
            total -= size
        except OSError:
            pass


def tsan_prefix(prog):
    """How to start a ThreadSanitizer program here, or None if it cannot be."""
    for prefix in ([], ["setarch", "-R"]):
        try:
            r = subprocess.run(prefix + [prog, "--only", "no such check"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, env=ENV, timeout=60)
            if r.returncode == 0:
                return prefix
        except (OSError, subprocess.TimeoutExpired):
            pass
    return None


def run_program(prop, flavour, prog, scale, seed, thorough, replay_dir):
    """Runs all checks of one program. Returns (list of results, list of replay files, note)."""
    prefix = []
    if flavour == "tsan":
        prefix = tsan_prefix(prog)
        if prefix is None:
            return [], [], "ThreadSanitizer cannot run in this environment"
    out = os.path.join(BUILD, "out", "%s-%s-%d.json" % (prop, flavour, os.getpid()))
    if os.path.exists(out):
        os.remove(out)
    # A check that takes much longer than it should stops early (and says so in the evidence), it does not fail.
    per_check = max(20.0, left() / 4.0) if not thorough else 3 * 3600.0
    cmd = prefix + [prog, "--seed", str(seed), "--scale", str(scale), "--flavour", flavour, "--out", out, "--replay-dir", replay_dir,
                    "--workers", "8", "--max-s", str(int(per_check))]
    if thorough:
        cmd.append("--thorough")
    note = ""
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, start_new_session=True)
    try:
        _, err = p.communicate(timeout=max(30.0, left()))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        _, err = p.communicate()
        note = "stopped at the time limit"
    if err:
        sys.stderr.write(err[-6000:])
    results = []
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            results = json.load(f)
        os.remove(out)
    replays = [r["violation"] for r in results if r.get("violation")]
    if not results and not note:
        note = "the program ended with status %s without a result" % p.returncode
    return results, replays, note


def run_fuzz(prop, flavour, prog, procs, runs, seed, replay_dir):
    """libFuzzer, `procs` processes of `runs` inputs each. Returns (result, replay files, note)."""
    t0 = time.time()
    oracle = FUZZ[prop][0]
    work = tempfile.mkdtemp(prefix="fuzz-", dir=os.path.join(BUILD, "out"))
    replays, notes = [], []
    stats = {"runs": 0, "loaded": 0, "accepted": 0, "new_units": 0}
    try:
        ps = []
        for k in range(procs):
            corpus = os.path.join(work, "c%d" % k)
            os.mkdir(corpus)
            s = seed * 100 + k
            subprocess.run([prog, "--make-seeds", corpus, "150", str(s)], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            log = open(os.path.join(work, "log%d" % k), "wb")
            cmd = [prog, "-seed=%d" % (s % 2**31 or 1), "-runs=%d" % runs, "-max_len=4096", "-timeout=120", "-rss_limit_mb=0", "-malloc_limit_mb=0",
                   "-max_total_time=%d" % int(max(20, min(left() / 2, 300)) if not THOROUGH else 3600), "-print_final_stats=1",
                   "-artifact_prefix=%s/crash%d-" % (work, k), corpus]
            ps.append((k, corpus, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=log, env=ENV, start_new_session=True)))
            log.close()
        for k, corpus, p in ps:
            try:
                p.wait(timeout=max(30.0, left()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                notes.append("stopped at the time limit")
            log = read(os.path.join(work, "log%d" % k)).decode(errors="replace")
            m = re.search(r"VERIF-COUNTS runs=(\d+) loaded=(\d+) accepted=(\d+)", log)
            if m:
                for name, v in zip(("runs", "loaded", "accepted"), m.groups()):
                    stats[name] += int(v)
            m = re.search(r"stat::new_units_added:\s+(\d+)", log)
            if m:
                stats["new_units"] += int(m.group(1))
        crashes = sorted(f for f in glob.glob(os.path.join(work, "crash*")) if os.path.isfile(f))
        if crashes:
            crash = crashes[0]

            def fails(path):
                r = subprocess.run([prog, "-timeout=120", "-rss_limit_mb=0", "-malloc_limit_mb=0", path], env=ENV, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, text=True, errors="replace", timeout=400)
                return r.returncode != 0, r.stderr

            tries = [fails(crash) for _ in range(3)]
            if all(t[0] for t in tries):
                best = minimise(crash, fails, work)
                text = fails(best)[1]
                keep = os.path.join(replay_dir, "%s-libfuzzer-%s.input" % (prop, flavour))
                shutil.copy(best, keep)
                with open(keep + ".txt", "w") as f:
                    f.write("Input of %d bytes, oracle %d.\n%s" % (os.path.getsize(keep), oracle, text[-8000:]))
                m = re.search(r"VERIF-FUZZ: .*|ERROR: AddressSanitizer.*|runtime error: .*|ERROR: libFuzzer: .*|.*Assertion `.*", text)
                sys.stderr.write("libFuzzer: %s\n" % (m.group(0)[:1500] if m else "crash"))
                replays.append(keep)
            else:
                keep = os.path.join(replay_dir, "unconfirmed-%s-libfuzzer-%s" % (prop, flavour))
                shutil.copy(crash, keep + ".input")
                for k, _, _ in ps:
                    shutil.copy(os.path.join(work, "log%d" % k), keep + ".log%d" % k)
                notes.append("an input failed once and did not fail again in three runs; not reported")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    nontrivial = stats["new_units"]
    res = {"check": "libfuzzer", "flavour": flavour, "planned": procs * runs, "cases": stats["runs"], "inner": 0, "nontrivial": nontrivial,
           "distinct_nontrivial": nontrivial, "rule": "inputs evolved by libFuzzer from generated files with field-level and byte-level mutations, up to 4096 bytes; "
           "non-trivial: reached code not reached before by its process", "wall_s": time.time() - t0,
           "labels": {"loaded": stats["loaded"], "accepted by the validator": stats["accepted"]}, "samples": [], "violation": replays[0] if replays else None}
    return res, replays, "; ".join(notes)


def minimise(path, fails, work):
    """Removes chunks of the input as long as it keeps failing."""
    data = read(path)
    out = os.path.join(work, "minimal")
    t1 = time.time()

    def bad(d):
        with open(out + ".try", "wb") as f:
            f.write(d)
        return fails(out + ".try")[0]

    n = max(1, len(data) // 2)
    while n >= 1 and time.time() - t1 < 60:
        i = 0
        while i < len(data) and time.time() - t1 < 60:
            cand = data[:i] + data[i + n:]
            if cand and bad(cand):
                data = cand
            else:
                i += n
        if n == 1:
            break
        n //= 2
    with open(out, "wb") as f:
        f.write(data)
    return out


def replay(prop, path):
    if path.endswith(".input"):
        flavour = re.search(r"libfuzzer-(\w+)\.input$", path).group(1)
        jobs, link = plan_build(prop, flavour)
        compile_all(jobs)
        prog = program(prop, flavour, jobs, link)
        return subprocess.run([prog, "-timeout=120", "-rss_limit_mb=0", "-malloc_limit_mb=0", path], env=ENV).returncode != 0
    with open(path) as f:
        r = json.load(f)
    flavour = r["flavour"]
    if prop == "C21":
        build_inspect(flavour)
    jobs, link = plan_build(prop, flavour)
    compile_all(jobs)
    prog = program(prop, flavour, jobs, link)
    cmd = (tsan_prefix(prog) or []) if flavour == "tsan" else []
    cmd = cmd + [prog, "--replay-check", r["check"]]
    if r["how"] in ("seed", "sequence"):
        cmd += ["--replay-seed", r["case_seed"]]
        if r["how"] == "sequence":
            tmp = os.path.join(BUILD, "out", "before-%d" % os.getpid())
            with open(tmp, "w") as f:
                f.write(" ".join(r["before"]))
            cmd += ["--replay-before", tmp]
    else:
        tmp = os.path.join(BUILD, "out", "choices-%d" % os.getpid())
        with open(tmp, "w") as f:
            f.write(" ".join(r["choices"]))
        cmd += ["--replay-choices", tmp]
    return subprocess.run(cmd, env=ENV).returncode != 0


ASSUMPTIONS = [
    "64-bit little-endian Linux, g++ 13 with libstdc++ (and clang 18 for libFuzzer)",
    "generated inputs are a sample: what the generators cannot reach is not explored",
    "the oracle (independent reader, writer and comparison in harness/) is trusted",
]


def main():
    global DEADLINE, THOROUGH
    args = sys.argv[1:]
    for d in ("obj", "bin", "out"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    if args and args[0] == "--setup":
        for tool in ("g++", "clang++"):
            say(tool, shutil.which(tool) or "MISSING")
        return 0 if shutil.which("g++") and shutil.which("clang++") else 2
    prop = args[0]
    THOROUGH = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    if "--quick" in args:
        THOROUGH = False
    DEADLINE = DEADLINE_QUICK if not THOROUGH else 10 * 3600.0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in args:
        if prop == "C17":
            build_locale()
        bad = replay(prop, args[args.index("--replay") + 1])
        say("the case fails" if bad else "the case passes")
        return 1 if bad else 0
    replay_dir = os.environ.get("VERIF_REPLAY_DIR", os.path.join(HERE, "_out"))
    os.makedirs(replay_dir, exist_ok=True)
    for f in glob.glob(os.path.join(replay_dir, prop + "-*")):
        os.remove(f)
    prune()

    notes, results, replays = [], [], []
    plan = PLAN.get(prop, DEFAULT)
    fuzz = FUZZ.get(prop, (0, []))[1]
    if prop == "C21":
        build_inspect("asan")
    if prop == "C17":
        build_locale()
    builds, jobs = {}, []
    for flavour in [p[0] for p in plan] + [p[0] for p in fuzz]:
        builds[flavour] = plan_build(prop, flavour)
        jobs += builds[flavour][0]
    try:
        compile_all(jobs)
    except BuildError as e:
        # The binding may use parts of nanobind that the stand-in does not have: then nothing can be said about it.
        if prop != "C22":
            raise
        sys.stderr.write(str(e))
        notes.append("the binding does not compile against the stand-in for nanobind; nothing was decided")
        plan = []
    t_build = time.time() - T0
    for flavour, quick, thorough in plan:
        prog = program(prop, flavour, *builds[flavour])
        r, v, note = run_program(prop, flavour, prog, thorough if THOROUGH else quick, seed, THOROUGH, replay_dir)
        results += r
        replays += v
        if note:
            notes.append(flavour + ": " + note)
        if replays:
            break
    for flavour, procs, quick, thorough in fuzz:
        if replays:
            break
        prog = program(prop, flavour, *builds[flavour])
        r, v, note = run_fuzz(prop, flavour, prog, procs, thorough if THOROUGH else quick, seed, replay_dir)
        results.append(r)
        replays += v
        if note:
            notes.append(flavour + ": " + note)

    rules, samples = [], []
    for r in results:
        line = "%s: %s" % (r["check"], r["rule"])
        if line not in rules:
            rules.append(line)
        for s in r["samples"][:2]:
            if len(samples) < 12:
                samples.append("%s [%s]: %s" % (r["check"], r["flavour"], s))
    evidence = {
        "property": prop,
        "tier": "thorough" if THOROUGH else "quick",
        "seed": seed,
        "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": sum(r["cases"] + r["inner"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": "; ".join(rules),
            "samples": samples,
            "exhaustive": False,
            "cases": sum(r["cases"] for r in results),
            "checks": [{k: r[k] for k in ("check", "flavour", "planned", "cases", "inner", "nontrivial", "distinct_nontrivial", "wall_s", "labels")} for r in results],
            "notes": notes,
            "build_s": round(t_build, 1),
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1),
        "violations": len(replays),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

    known = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(known):
        for line in read(known).decode().splitlines():
            if line.startswith("known: property=%s " % prop):
                say("KNOWN-FINDING: " + line[len("known: "):])
    say("%s %s seed %d: %d cases, %d evaluations, %d distinct non-trivial, build %.0f s, total %.0f s%s" % (
        prop, evidence["tier"], seed, evidence["coverage"]["cases"], evidence["coverage"]["evaluations"], evidence["coverage"]["distinct_nontrivial"],
        t_build, time.time() - T0, "".join("; " + n for n in notes)))
    if replays:
        say("VIOLATION property=%s replay=%s" % (prop, replays[0]))
        return 1
    if not results and not notes:
        say("no result")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        sys.stderr.write("the check does not build:\n%s\n" % e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
