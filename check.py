#!/usr/bin/env python3
"""check.py ID quick|thorough      build the harness of a property against /repo and run it
   check.py ID replay FILE         re-run a replay file, printing the case
Exit 0: held on everything explored. Exit 1 (+ VIOLATION line): broken. Anything else: error."""
import glob, os, re, shutil, subprocess, sys, tempfile, time, zlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIMU_REPO", "/repo")

# groups of sources, as globs so that a helper moved to a file of its own is still compiled
SOURCES = {
    "math": ["src/Simu/math/*.cpp"],
    "physics": ["src/Simu/physics/*.cpp"],
    "bbox": ["src/Simu/physics/BoundingBox.cpp"],
    "camera": ["src/Simu/app/Camera.cpp"],
    "app": ["src/Simu/app/*.cpp"],  # with the stand-ins of harness/fake (FLAGS: fake)
    "utility": ["src/Simu/utility/*.cpp"],
}
BASE = ["-std=c++20", "-DSIMU_OS_LINUX", "-DSIMU_VERIF", "-I", REPO + "/include",
        "-I", HERE + "/harness", "-w", "-pipe"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=all"]
COV = ["-fsanitize-coverage=trace-pc"]
UBSAN = ["-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize-recover=all"]
FAST = ["-O2", "-g1"]


def directives(path):
    d = {"SOURCES": "math physics", "FLAGS": "san cov"}
    with open(path) as f:
        for line in f:
            m = re.match(r"//\s*(SOURCES|FLAGS):\s*(.*)", line)
            if m:
                d[m.group(1)] = m.group(2).strip()
    return d


def build(pid, out):
    harness = f"{HERE}/harness/{pid}.cpp"
    d = directives(harness)
    flags = list(BASE)
    sanitized = "san" in d["FLAGS"].split()
    ubsan = "ubsan" in d["FLAGS"].split()
    flags += SAN if sanitized else UBSAN if ubsan else FAST
    if "fake" in d["FLAGS"].split():
        flags += ["-I", HERE + "/harness/fake"]
    cov = COV if "cov" in d["FLAGS"].split() else []
    for extra in d["FLAGS"].split():
        if extra.startswith("-"):
            flags.append(extra)
    jobs = [(harness, cov)]
    for group in d["SOURCES"].split():
        for pattern in SOURCES[group]:
            for s in sorted(glob.glob(f"{REPO}/{pattern}")):
                jobs.append((s, cov))
    jobs.append((f"{HERE}/harness/pbt.cpp", None))
    objs = []

    def compile_one(job):
        src, c = job
        obj = os.path.join(out, src.replace("/", "_").replace(".cpp", ".o"))
        fl = flags + c if c is not None else \
            ["-std=c++20", "-O2", "-g1"] + (["-fsanitize=address"] if sanitized else [])
        r = subprocess.run(["g++", *fl, "-c", src, "-o", obj], capture_output=True, text=True)
        return obj, src, r

    with ThreadPoolExecutor(8) as ex:
        for obj, src, r in ex.map(compile_one, jobs):
            if r.returncode != 0:
                sys.stdout.write(r.stdout[-4000:])
                sys.stdout.write(r.stderr[-4000:])
                print(f"error: {src} does not compile")
                sys.exit(2)
            objs.append(obj)
    exe = os.path.join(out, pid)
    ubsan = "ubsan" in d["FLAGS"].split()
    link = ["-fsanitize=address,undefined"] if sanitized else \
        ["-fsanitize=undefined"] if ubsan else []
    r = subprocess.run(["g++", *link, *objs, "-o", exe, "-lpthread"], capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stderr[-4000:])
        print("error: link failed")
        sys.exit(2)
    return exe


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = os.environ.get("VERIF_SEED", "1")
    if not re.fullmatch(r"\d+", seed):
        seed = str(zlib.crc32(seed.encode()))
    os.makedirs(f"{HERE}/build", exist_ok=True)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    os.makedirs(f"{HERE}/replays", exist_ok=True)
    out = tempfile.mkdtemp(prefix=f"{pid}-", dir=f"{HERE}/build")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=1:allocator_may_return_null=1:handle_segv=1:" \
                          "detect_odr_violation=0:malloc_context_size=8"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    try:
        t0 = time.time()
        exe = build(pid, out)
        print(f"{pid}: built in {time.time() - t0:.1f} s", flush=True)
        if tier == "replay":
            return subprocess.run([exe, "replay", sys.argv[3]], env=env).returncode
        ev = f"{HERE}/evidence/{pid}.json"
        if os.path.exists(ev):
            os.unlink(ev)
        # undo VERIF_TIER surprises: the argument decides
        args = [exe, "run", "--tier", tier, "--seed", seed, "--evidence", ev,
                "--replay-dir", f"{HERE}/replays", "--known", f"{HERE}/known_findings.txt"]
        r = subprocess.run(args + sys.argv[3:], env=env)
        return r.returncode
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
