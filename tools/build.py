"""Builds the library of /repo's working tree and the harness, in several variants, with a cache of objects."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import words

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
# Hashes of the grammar files that the tracked generated files belong to; for any others the files are generated,
# with the commands of the project's Makefile.
PIN = {"bison_parser.y": "9aeb9256a5466408e2d977aabf07710017eb274a60e37e54d80f2fb963b208b0",
       "flex_lexer.l": "f1540175e92cdc7fb6368803c8f3adadaedf78aa9b1288ff3dae5a32f0872524"}
GEN = {"bison_parser.y": ["bison_parser.cpp", "bison_parser.h"], "flex_lexer.l": ["flex_lexer.cpp", "flex_lexer.h"]}
STD = ["-std=c++17", "-Wno-unknown-warning-option"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DSANITIZED"]
VARIANTS = {
    "plain": dict(cxx="g++", flags=["-O2"], libflags=["-O2"], link=["-lpthread", "-ldl"]),
    "asan": dict(cxx="clang++", flags=["-O1", "-gline-tables-only"] + ASAN, libflags=["-O1", "-gline-tables-only"] + ASAN, link=["-lpthread", "-ldl"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-gline-tables-only", "-fsanitize=thread", "-DSANITIZED"], libflags=["-O1", "-gline-tables-only", "-fsanitize=thread"], link=["-lpthread", "-ldl"]),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-gline-tables-only"] + ASAN, libflags=["-O1", "-gline-tables-only", "-fsanitize=fuzzer-no-link"] + ASAN, link=["-fsanitize=fuzzer", "-lpthread", "-ldl"]),
    # For valgrind, which checks every branch on uninitialised memory.
    "memcheck": dict(cxx="g++", flags=["-O1", "-g1", "-DSANITIZED"], libflags=["-O1", "-g1"], link=["-lpthread", "-ldl"]),
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])


def stage():
    """Copies the sources, generates the parser and lexer where they are not those that the tracked files belong to."""
    src = os.path.join(REPO, "src")
    files = []
    for root, dirs, names in os.walk(src):
        dirs.sort()
        for n in sorted(names):
            if n.endswith((".cpp", ".h", ".y", ".l", ".hpp", ".cc", ".c", ".inc")) or n == "Makefile":
                files.append(os.path.relpath(os.path.join(root, n), src))
    files = [f for f in files if not os.path.basename(f).startswith("conflict_test")]
    key = sha("2", *[x for f in files for x in (f, read(os.path.join(src, f)))])[:20]
    dst = os.path.join(BUILD, "stage", key)
    if not os.path.exists(os.path.join(dst, "done")):
        shutil.rmtree(dst, ignore_errors=True)
        for f in files:
            t = os.path.join(dst, "src", f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(os.path.join(src, f), t)
        par = os.path.join(dst, "src", "parser")
        for g, outs in GEN.items():
            gp = os.path.join(par, g)
            if os.path.exists(gp) and (sha_file(gp) != PIN[g] or not all(os.path.exists(os.path.join(par, o)) for o in outs)):
                work = os.path.join(dst, "work-" + g)
                os.makedirs(work)
                for n in GEN:
                    if os.path.exists(os.path.join(par, n)):
                        shutil.copyfile(os.path.join(par, n), os.path.join(work, n))
                shutil.copyfile(os.path.join(par, "Makefile"), os.path.join(work, "Makefile"))
                run(["make", "-C", work, outs[0]])
                for o in outs:
                    shutil.copyfile(os.path.join(work, o), os.path.join(par, o))
                shutil.rmtree(work)
        words.write(os.path.join(dst, "src"), os.path.join(dst, "words"))
        open(os.path.join(dst, "done"), "w").close()
    os.environ["VERIF_MATERIAL"] = os.path.join(dst, "words")
    os.utime(dst)
    stages = sorted(glob.glob(os.path.join(BUILD, "stage", "*")), key=os.path.getmtime)
    for old in stages[:-3]:
        shutil.rmtree(old, ignore_errors=True)
    return os.path.join(dst, "src")


def sha_file(p):
    return hashlib.sha256(read(p)).hexdigest()


def build(variant, main="main.cpp"):
    """Returns the path of the harness binary."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(variant, main)


def build_locked(variant, main):
    v = VARIANTS[variant]
    src = stage()
    har = os.path.join(VERIF, "harness")
    mains = ("main.cpp", "fuzz.cpp")
    libs = sorted(glob.glob(os.path.join(src, "**", "*.cpp"), recursive=True))
    tests = sorted(f for f in glob.glob(os.path.join(har, "*.cpp")) if os.path.basename(f) not in mains or os.path.basename(f) == main)
    if main == "fuzz.cpp":
        tests = [f for f in tests if os.path.basename(f) in ("fuzz.cpp", "reflex.cpp", "refparse.cpp", "dump.cpp")]
    lh = sorted(glob.glob(os.path.join(src, "**", "*.h"), recursive=True))
    hh = sorted(glob.glob(os.path.join(har, "*.h")))
    lhash = sha(*[x for f in lh for x in (os.path.relpath(f, src), read(f))])
    hhash = sha(lhash, *[x for f in hh for x in (os.path.basename(f), read(f))])
    jobs, objs = [], []
    for f in libs + tests:
        lib = f in libs
        flags = STD + (v["libflags"] if lib else v["flags"])
        name = os.path.relpath(f, src) if lib else os.path.basename(f)
        # The paths of the stage must not matter: compile relative to the root of the sources.
        k = sha(v["cxx"], " ".join(flags), lhash if lib else hhash, name, read(f))[:24]
        o = os.path.join(BUILD, "obj", k + ".o")
        objs.append(o)
        if os.path.exists(o):
            os.utime(o)
        else:
            cmd = [v["cxx"]] + flags + ["-I", "."] + ([] if lib else ["-I", har]) + ["-c", name if lib else f, "-o", o + ".tmp"]
            jobs.append((os.path.getsize(f), cmd, o))
    jobs.sort(key=lambda j: -j[0])

    def one(j):
        try:
            run(j[1], cwd=src)
        except BuildError:
            # It uses every constructor. If one is different now, only the check of C31 has no answer.
            if not j[1][-3].endswith("props_api.cpp"):
                raise
            run(j[1] + ["-DNO_API"], cwd=src)
        os.rename(j[2] + ".tmp", j[2])

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for r in [ex.submit(one, j) for j in jobs]:
            r.result()
    out = os.path.join(BUILD, "bin", variant + "-" + sha(*objs)[:16])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        sanit = [f for f in v["flags"] if f.startswith("-fsanitize")]
        run([v["cxx"]] + objs + sanit + v["link"] + ["-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
    os.utime(out)
    for d, keep in (("obj", 400), ("bin", 12)):
        old = sorted(glob.glob(os.path.join(BUILD, d, "*")), key=os.path.getmtime)
        for p in old[:-keep]:
            os.unlink(p)
    return out


if __name__ == "__main__":
    for a in sys.argv[1:] or ["plain"]:
        t = time.time()
        try:
            print(a, build(a, "fuzz.cpp" if a == "fuzz" else "main.cpp"), "%.1f s" % (time.time() - t))
        except BuildError as e:
            print(e)
            sys.exit(2)
