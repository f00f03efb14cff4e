"""Coverage-guided fuzzing as a step of a check."""
import glob, hashlib, os, re, shutil, subprocess, sys
import build

ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:malloc_context_size=12:detect_stack_use_after_return=1:handle_abort=1",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1"}
KINDS = {"own": "memory", "accept": "acceptance", "content": "content", "errpos": "errors", "lex": "tokens", "invalid": "invalid tokens"}


def keywords():
    out = []
    for line in open(os.path.join(build.VERIF, "harness", "reflex.cpp")):
        out += re.findall(r'"([A-Z_]{2,})"', line)
    return sorted(set(out))


def prepare(seed):
    """Dictionary and seed inputs, made with the generators."""
    d = os.path.join(build.BUILD, "fuzz", "seeds-%d" % seed)
    plain = build.build("plain")
    stamp = os.path.join(d, "done")
    if not (os.path.exists(stamp) and open(stamp).read() == plain + os.environ["VERIF_MATERIAL"]):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "in"))
        subprocess.run([plain, "seeds", "--emit", os.path.join(d, "in"), "--cases", "400", "--seed", str(seed)], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        with open(os.path.join(d, "dict"), "w") as f:
            for k in keywords() + ["<=", ">=", "<>", "!=", "==", "||", "--", "''", "\\\"", "\\x00", "9223372036854775807", "-9223372036854775808", "CSV", "TBL", "FIRST", "DELIMITER"]:
                f.write('"%s"\n' % k)
            for line in open(os.environ["VERIF_MATERIAL"]):
                if line.startswith("w "):
                    f.write('"%s"\n' % "".join("\\x" + line[i:i + 2] for i in range(2, len(line) - 2, 2)))
        open(stamp, "w").write(plain + os.environ["VERIF_MATERIAL"])
    return d


def fuzz(mode, quick, thorough, workers=8, max_len=600):
    def step(ctx):
        if ctx.tier != "thorough" and not quick:
            return None
        binary = build.build("fuzz", "fuzz.cpp")
        seeds = prepare(ctx.seed)
        runs = int(ctx.cases) if ctx.cases else thorough if ctx.tier == "thorough" else quick
        work = os.path.join(build.BUILD, "fuzz", "run-%s-%s-%d" % (ctx.pid, mode, os.getpid()))
        shutil.rmtree(work, ignore_errors=True)
        env = dict(os.environ, **ENV)
        env["FUZZ_MODE"] = mode
        procs = []
        for w in range(workers):
            d = os.path.join(work, str(w))
            os.makedirs(os.path.join(d, "corpus"))
            cmd = [binary, "-runs=%d" % runs, "-seed=%d" % (ctx.seed * 1000 + w + 1), "-max_len=%d" % (max_len if w % 4 else 4 * max_len), "-dict=" + os.path.join(seeds, "dict"), "-artifact_prefix=" + d + "/", "-timeout=25",
                   "-rss_limit_mb=3000", "-print_final_stats=1", "-use_value_profile=%d" % (w % 2), "-verbosity=1", os.path.join(d, "corpus"), os.path.join(seeds, "in")]
            procs.append((d, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "log"), "wb"))))
        stats = dict(evaluations=0, distinct_nontrivial=0, samples=[], calls=0, classes={}, rule="Coverage-guided mutation (bytes, and tokens of the reference lexer) of generated statements, oracle: " + KINDS[mode] +
                     ". Non-trivial and distinct: inputs that reached code, or a value of a comparison, no earlier input had reached.")
        found = None
        broken = None
        for d, p in procs:
            rc = p.wait()
            log = open(os.path.join(d, "log"), "rb").read().decode(errors="replace")
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
            n = re.search(r"stat::new_units_added:\s*(\d+)", log)
            cov = re.findall(r"cov: (\d+) ft: (\d+)", log)
            stats["evaluations"] += int(m.group(1)) if m else 0
            stats["calls"] += int(m.group(1)) if m else 0
            stats["distinct_nontrivial"] += int(n.group(1)) if n else 0
            if cov:
                stats["classes"]["edges covered by process " + os.path.basename(d)] = int(cov[-1][0])
            if rc:
                arts = sorted(glob.glob(os.path.join(d, "crash-*")) + glob.glob(os.path.join(d, "timeout-*")) + glob.glob(os.path.join(d, "oom-*")))
                if arts and not found:
                    found = (arts[0], log)
                elif not arts:
                    broken = log[-1500:]
        for f in sorted(glob.glob(os.path.join(work, "0", "corpus", "*")))[:3]:
            stats["samples"].append(open(f, "rb").read(600).decode("latin-1"))
        rc = 0
        if found:
            data, log = minimize(binary, found[0], env, work), found[1]
            path = os.path.join(ctx.replays, "%s-fuzz-%s.%s" % (ctx.pid, hashlib.sha1(data).hexdigest()[:10], mode))
            open(path, "wb").write(data)
            r = subprocess.run([binary, path], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            out = r.stderr.decode(errors="replace")
            if r.returncode == 0:
                # What a fresh process does not do depends on what ran before; the log says what happened.
                out = "(not reproduced alone)\n" + log[-3000:]
            sys.stdout.write("input: %r\n%s\n" % (data[:2000], report(out)))
            sys.stdout.write("VIOLATION property=%s replay=%s\n" % (ctx.pid, path))
            rc = 1
        shutil.rmtree(work, ignore_errors=True)
        if not rc and broken is not None:
            return dict(rc=2, name="fuzz " + mode, stats=stats, error=broken)
        print("%s %s: fuzzed (%s) with %d inputs, %d of them new" % (ctx.pid, ctx.tier, KINDS[mode], stats["evaluations"], stats["distinct_nontrivial"]))
        return dict(rc=rc, name="libFuzzer, " + KINDS[mode], stats=stats, error="")

    step.fuzz = mode
    return step


def report(text):
    for key in ("FAILURE:", "ERROR: ", "runtime error"):
        p = text.find(key)
        if p >= 0:
            p = text.rfind("\n", 0, p) + 1
            return "failure: " + text[p:p + 2500]
    return "failure: " + text[-1500:]


def minimize(binary, art, env, work):
    best = open(art, "rb").read()
    out = os.path.join(work, "min")
    if "timeout-" not in os.path.basename(art):
        try:
            subprocess.run([binary, "-minimize_crash=1", "-max_total_time=30", "-runs=200000", "-exact_artifact_path=" + out, art], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(out):
            data = open(out, "rb").read()
            if len(data) < len(best):
                best = data
    return best


def replay_input(ctx, plan, path):
    mode = path.rsplit(".", 1)[1]
    binary = build.build("fuzz", "fuzz.cpp")
    env = dict(os.environ, **ENV)
    env["FUZZ_MODE"] = mode
    r = subprocess.run([binary, path], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if r.returncode:
        print("input: %r\n%s" % (open(path, "rb").read()[:2000], report(r.stderr.decode(errors="replace"))))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
        return 1
    print("passed")
    return 0
