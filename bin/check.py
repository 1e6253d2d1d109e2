#!/usr/bin/env python3
"""Builds and runs the check of one property: check.py ID [quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check could
not be built or run.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import specs  # noqa: E402

SRC = os.path.join(REPO, "src", "maidsafe", "common")
JOBS = os.cpu_count() or 4

DEFINES = """NDEBUG APPLICATION_VERSION_MAJOR=0 APPLICATION_VERSION_MINOR=0
APPLICATION_VERSION_PATCH=0 TARGET_PLATFORM=Linux TARGET_ARCHITECTURE=x86_64 TESTING
ASIO_HAS_MOVE BOOST_ASIO_HAS_MOVE ASIO_HAS_STD_ARRAY BOOST_ASIO_HAS_STD_ARRAY ASIO_HAS_STD_ATOMIC
BOOST_ASIO_HAS_STD_ATOMIC ASIO_HAS_STD_SHARED_PTR BOOST_ASIO_HAS_STD_SHARED_PTR
ASIO_HAS_STD_CHRONO BOOST_ASIO_HAS_STD_CHRONO ASIO_HAS_STD_SYSTEM_ERROR
BOOST_ASIO_HAS_STD_SYSTEM_ERROR ASIO_HAS_VARIADIC_TEMPLATES BOOST_ASIO_HAS_VARIADIC_TEMPLATES
BOOST_FILESYSTEM_NO_DEPRECATED BOOST_FILESYSTEM_VERSION=3 BOOST_THREAD_VERSION=4
BOOST_RESULT_OF_USE_DECLTYPE _FILE_OFFSET_BITS=64 HAVE_PTHREAD MAIDSAFE_LINUX""".split()

SANITIZERS = {
    "address": ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
    "address+ub": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment",
                   "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    "thread": ["-fsanitize=thread"],
    "none": ["-D_GLIBCXX_ASSERTIONS"],
}

# Sources which only build with some extra help (the code targets older library versions).
TU_FLAGS = {
    "rsa.cc": ["-include", os.path.join(VERIF, "shim", "cryptopp_prefix.h")],
    "utils.cc": ["-include", "asio/io_service.hpp"],
    "test.cc": ["-include", os.path.join(VERIF, "shim", "boost_copy_option.h")],
}


class BuildError(Exception):
    pass


def log(*args):
    print(*args, file=sys.stderr, flush=True)


def sha(path, cache={}):
    if path not in cache:
        with open(path, "rb") as f:
            cache[path] = hashlib.sha256(f.read()).hexdigest()
    return cache[path]


def compile_tu(source, obj, flags, cxx):
    """Compiles, unless an object from the same content of all of its files exists already."""
    command = [cxx] + flags + TU_FLAGS.get(os.path.basename(source), []) + ["-MD", "-MF", obj + ".d",
                                                                          "-c", source, "-o", obj]
    stamp = obj + ".stamp"
    if os.path.exists(obj) and os.path.exists(stamp):
        try:
            with open(stamp) as f:
                old = json.load(f)
            if old["command"] == command and all(
                    os.path.exists(p) and sha(p) == h for p, h in old["files"].items()):
                return ""
        except (ValueError, KeyError):
            pass
    for path in (obj, stamp):
        if os.path.exists(path):
            os.remove(path)
    done = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if done.returncode:
        return "%s\n%s" % (" ".join(command), done.stdout[-4000:])
    with open(obj + ".d") as f:
        words = f.read().replace("\\\n", " ").split()[1:]
    files = {p: sha(p) for p in words if p.startswith(REPO) or p.startswith(VERIF)}
    with open(stamp, "w") as f:
        json.dump({"command": command, "files": files}, f)
    return ""


def build(name, spec):
    """Returns the path of the program."""
    folder = os.path.join(VERIF, "build", name)
    os.makedirs(folder, exist_ok=True)
    sanitizer = SANITIZERS[spec.get("sanitizer", "address")]
    cxx = spec.get("cxx", "g++")
    flags = ["-w", "-std=c++17", spec.get("opt", "-O1"), "-g1", "-pthread",
             "-fno-omit-frame-pointer", "-include", "memory",
             "-include", "cassert", "-I" + os.path.join(REPO, "include"),
             "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "shim"),
             "-I" + os.path.join(VERIF, "harness")]
    defines = ["-D" + d for d in DEFINES]
    if not any(f.startswith("-DUSE_LOGGING") for f in spec.get("flags", [])):
        defines.append("-DUSE_LOGGING=0")
    flags += defines + sanitizer + spec.get("flags", [])
    harness = [os.path.join(VERIF, "harness", h) for h in spec["harness"] + ["pbt.cc"]]
    wanted = [os.path.join(SRC, s) for s in spec.get("repo", [])]
    missing = [s for s in wanted if not os.path.exists(s)]
    present = [s for s in wanted if os.path.exists(s)]

    def obj_of(source):
        return os.path.join(folder, re.sub(r"[^A-Za-z0-9_.]", "_",
                                           os.path.relpath(source, "/")) + ".o")

    def compile_all(sources, fatal):
        objects = []
        with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
            errors = list(pool.map(lambda s: compile_tu(s, obj_of(s), flags, cxx), sources))
        for source, error in zip(sources, errors):
            if error and fatal:
                raise BuildError(error)
            if not error:
                objects.append(obj_of(source))
        return objects

    program = os.path.join(folder, "check")
    if os.path.exists(program):
        os.remove(program)

    def link(objects):
        command = [cxx, "-pthread"] + sanitizer[:1] + objects + ["-o", program] + \
            spec.get("link", []) + spec.get("libs", [])
        return subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    objects = compile_all(harness + present, True)
    done = link(objects)
    if done.returncode:
        if missing:
            log("missing sources: %s" % missing)
        # Something moved between source files: take all that build.
        every = [s for s in sorted(glob.glob(os.path.join(SRC, "*.cc")) +
                                   glob.glob(os.path.join(SRC, "*", "*.cc")) +
                                   glob.glob(os.path.join(SRC, "*", "*", "*.cc")))
                 if "/tests/" not in s and s not in present and not s.endswith("/test.cc") and
                 "_main" not in os.path.basename(s) and "/tools/" not in s]
        log("link failed; trying with all sources:\n%s" % done.stdout[-1500:])
        objects += compile_all(every, False)
        spec = dict(spec, libs=specs.ALL_LIBS)
        done = link(objects)
        if done.returncode:
            raise BuildError(done.stdout[-4000:])
    return program


def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    result = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m:
                result.append(m.groups())
    return result


def environment(scratch):
    env = dict(os.environ)
    env["PBT_SCRATCH"] = scratch
    env["TMPDIR"] = scratch
    env["HOME"] = scratch
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
                           "detect_stack_use_after_return=0:handle_abort=1:"
                           "max_allocation_size_mb=4096")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0"
    return env


def main():
    name = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    replay = args[1] if len(args) > 1 and args[0] == "--replay" else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = specs.SPECS[name]
    start = time.time()
    out_dir = os.path.join(VERIF, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    programs = []
    for variant, part in spec["parts"].items():
        part_name = name if variant == "main" else name + "-" + variant
        try:
            program = build(part_name, part)
            if part.get("sanitizer") == "thread":
                # Some kernels do not let the thread sanitizer start.
                probe = subprocess.run([program, "--only", "?", "--out", os.devnull],
                                       env=environment(tempfile.gettempdir()),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if probe.returncode:
                    log("thread sanitizer does not start here; using the address sanitizer")
                    part = dict(part, sanitizer="address")
                    program = build(part_name + "-nothread", part)
        except BuildError as e:
            log("%s: build failed\n%s" % (name, e))
            return 2
        programs.append((variant, part, program))
    built = time.time()
    scratch = tempfile.mkdtemp(prefix="check-%s-" % name)
    violations = []
    known = []
    totals = {"evaluations": 0, "discarded": 0, "nontrivial": 0, "unreproduced": 0}
    distinct, samples, labels, per_property = set(), [], {}, {}
    out_of_time = False
    try:
        if replay:
            for variant, part, program in programs:
                code = subprocess.run(["timeout", "600", program, "--replay", replay],
                                      env=environment(scratch)).returncode
                if code != 2:
                    return code
            return 2
        for variant, part, program in programs:
            workers = part.get("workers", JOBS)
            cases = part.get("cases", {}).get(tier, 1000 if tier == "quick" else 20000)
            seconds = part.get("seconds", {}).get(tier, 60 if tier == "quick" else 600)
            runs = []
            for worker in range(workers):
                out = os.path.join(scratch, "%s-%d.json" % (variant, worker))
                command = part.get("wrap", []) + [
                    program, "--seed", str(seed), "--worker", str(worker), "--workers",
                    str(workers), "--cases", str(max(1, cases // workers)), "--seconds",
                    str(seconds), "--case-timeout", str(part.get("case_timeout", 30)),
                    "--out", out]
                runs.append((out, subprocess.Popen(
                    command, env=environment(scratch), stdin=subprocess.DEVNULL,
                    stdout=open(out + ".stdout", "w"), stderr=open(out + ".stderr", "w"))))
            for out, process in runs:
                code = process.wait()
                if code not in (0, 1) or not os.path.exists(out):
                    log("%s: worker ended with %d\n%s" % (
                        name, code, open(out + ".stderr", errors="replace").read()[-3000:]))
                    return 2
                with open(out) as f:
                    result = json.load(f)
                for key in totals:
                    totals[key] += result[key]
                out_of_time = out_of_time or result["out_of_time"]
                distinct.update(variant + h for h in result["distinct"])
                samples.append(result["samples"])
                for key, n in result["labels"].items():
                    labels[key] = labels.get(key, 0) + n
                for key, n in result["per_property"].items():
                    per_property[key] = per_property.get(key, 0) + n
                for found in result["found"]:
                    text = found["property"] + ": " + found["message"]
                    match = [k for k in known_findings()
                             if k[0] == name and re.search(k[1], text)]
                    if match:
                        if match[0] not in known:
                            known.append(match[0])
                    else:
                        violations.append((found, result))
        picked, seen = [], set()
        for row in samples:
            for sample in row:
                kind = sample.split(":", 1)[0]
                if kind not in seen:
                    seen.add(kind)
                    picked.append(sample)
        coverage = {
            "evaluations": totals["evaluations"],
            "distinct_nontrivial": len(distinct),
            "rule": spec["rule"],
            "samples": picked[:10] or ["(no sample recorded)"],
            "nontrivial": totals["nontrivial"],
            "discarded": totals["discarded"],
            "per_check": per_property,
            "labels": labels,
            "failures_not_reproduced": totals["unreproduced"],
            "stopped_by_time_cap": out_of_time,
        }
        evidence = {
            "property": name, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": coverage,
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - start, 2),
            "build_s": round(built - start, 2),
            "violations": len(violations),
        }
        path = os.path.join(out_dir, name + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)
        for _, pattern, text in known:
            print("KNOWN-FINDING: property=%s %s" % (name, text))
        if violations:
            replays = os.path.join(VERIF, "replays")
            os.makedirs(replays, exist_ok=True)
            best = {}
            for found, _ in violations:
                size = os.path.getsize(found["replay"])
                key = found["property"]
                if key not in best or size < best[key][0]:
                    best[key] = (size, found)
            for key, (_, found) in sorted(best.items()):
                target = os.path.join(replays, "%s-%s.replay" % (name, key))
                shutil.copyfile(found["replay"], target)
                log("%s: %s\n%s\n" % (key, found["message"], found["case"]))
                print("VIOLATION property=%s replay=%s" % (name, target))
            return 1
        print("%s held: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (
            name, totals["evaluations"], len(distinct), time.time() - start, built - start))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        remove_shared_memory()


def remove_shared_memory():
    """Left by cases of C28 which were ended: their names begin with "verif", in hex."""
    for path in glob.glob("/dev/shm/7665726966*"):
        try:
            os.remove(path)
        except OSError:
            pass


if __name__ == "__main__":
    sys.exit(main())
