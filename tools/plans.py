"""What the check of each property runs."""
import json, os, subprocess, sys
import build
from steps import fuzz

VERIF = build.VERIF


class Context:
    def __init__(self, pid, tier, seed, cases=None):
        self.pid, self.tier, self.seed, self.cases = pid, tier, seed, cases
        self.replays = os.path.join(VERIF, "replays")


ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_context_size=12",
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:halt_on_error=1",
       "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1"}


def engine(variant="plain", prop=None, scale=None, thorough_scale=1.0, env=None, wrap=()):
    """A step that runs the property's generator and oracle."""

    def step(ctx):
        binary = build.build(variant)
        name = prop or ctx.pid
        out = os.path.join(build.BUILD, "stats-%s-%d.json" % (name, os.getpid()))
        sc = thorough_scale if ctx.tier == "thorough" else scale or (4.0 if variant == "plain" else 2.0)
        cmd = list(wrap) + [binary, name, "--tier", ctx.tier, "--seed", str(ctx.seed), "--out", out, "--dir", ctx.replays, "--scale", str(sc)]
        if ctx.cases:
            cmd += ["--cases", ctx.cases]
        e = dict(os.environ, **ENV)
        e.update(env() if callable(env) else env or {})
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = r.stdout.decode(errors="replace")
        if prop:
            text = text.replace("VIOLATION property=%s " % prop, "VIOLATION property=%s " % ctx.pid)
        sys.stdout.write(text)
        sys.stdout.flush()
        stats = {"rule": ""}
        if os.path.exists(out):
            stats = json.load(open(out))
            os.unlink(out)
        elif r.returncode == 0:
            return dict(rc=2, name=variant, stats=stats, error="no statistics")
        return dict(rc=r.returncode if r.returncode in (0, 1) else 2, name=name + " (" + variant + ")", stats=stats, error=text[-2000:])

    step.variant = variant
    step.prop = prop
    step.env = env
    step.wrap = wrap
    return step


def replay(ctx, plan, path):
    """Replays a file of any of the steps."""
    if not path.endswith(".json"):
        import steps
        return steps.replay_input(ctx, plan, path)
    want = json.load(open(path))["property"]
    for step in plan["steps"]:
        if (getattr(step, "prop", None) or ctx.pid) != want or not hasattr(step, "variant"):
            continue
        e = dict(os.environ, **ENV)
        env = step.env
        e.update(env() if callable(env) else env or {})
        r = subprocess.run(list(step.wrap) + [build.build(step.variant), want, "--replay", path, "--dir", ctx.replays], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        sys.stdout.write(r.stdout.decode(errors="replace").replace("VIOLATION property=%s " % want, "VIOLATION property=%s " % ctx.pid))
        return r.returncode
    print("no step replays " + path)
    return 2


VALGRIND = ("valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=99", "--leak-check=no", "--track-origins=no")


def locales():
    """Compiles the locales the C25 check uses, from the sources of the C library where they are installed."""
    d = os.path.join(build.BUILD, "locale")
    for name, src, cs in (("de_DE.UTF-8", "de_DE", "UTF-8"), ("tr_TR.UTF-8", "tr_TR", "UTF-8"), ("tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9")):
        if not os.path.isdir(os.path.join(d, name)):
            os.makedirs(d, exist_ok=True)
            try:
                subprocess.run(["localedef", "-i", src, "-f", cs, os.path.join(d, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except OSError:
                pass
    return {"LOCPATH": d}


REF = ["The reference lexer and parser in /verif/harness (reflex.cpp, refparse.cpp) describe the supported language; they were written from the documentation, the grammar's comments and the tests, not generated from the grammar.",
       "Texts nested deeper than the parser's fixed stack allows may be rejected."]
SANE = ["Sampling: inputs are drawn from generators; what they never produce is not checked."]
SCALE = {p: n for n, ps in ((16.0, "C06 C08 C09 C10 C11"), (8.0, "C04 C05 C12 C13 C15 C16 C17"), (6.0, "C01 C02 C03 C14 C18 C27")) for p in ps.split()}
PLANS = {p: dict(steps=[engine(scale=SCALE.get(p))], assumptions=REF + SANE) for p in
         ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C14", "C15", "C16", "C18", "C19", "C27")}
PLANS.update({p: dict(steps=[engine(scale=SCALE.get(p))], assumptions=SANE) for p in ("C07", "C11", "C12", "C13", "C17")})

THREADS = ["Schedules are those the operating system produces; ThreadSanitizer reports races in them whether or not they did harm."]
PLANS.update({
    "C20": dict(steps=[engine("asan"), engine("memcheck", "C20m", wrap=VALGRIND), fuzz("own", 12000, 1500000)], assumptions=SANE),
    "C21": dict(steps=[engine()], assumptions=SANE + ["Memory is counted at malloc and free; a block kept once for a process or thread is not a leak, one kept by every repetition is."]),
    "C22": dict(steps=[engine("asan"), engine("plain", "C22b")], assumptions=SANE + ["Parsing into a result that still has statements appends to it; this is not documented and not checked."]),
    "C23": dict(steps=[engine()], assumptions=SANE),
    "C24": dict(steps=[engine(scale=2.0), engine("tsan", "C24t")], assumptions=SANE + THREADS),
    "C32": dict(steps=[engine(), engine("tsan", "C32t")], assumptions=SANE + THREADS + ["One thread at a time changes a result; only readers meet."]),
    "C25": dict(steps=[engine(env=locales)], assumptions=SANE + ["Locales that cannot be compiled here are left out (the classes in the evidence name those that took part); C++ facets always take part."]),
    "C26": dict(steps=[engine()], assumptions=REF + SANE + ["Decimals are printed with the default precision of C++ streams."]),
    "C30": dict(steps=[engine()], assumptions=SANE),
    "C29": dict(steps=[engine()], assumptions=SANE),
    "C33": dict(steps=[engine()], assumptions=SANE + ["Only the requests whose failure the code can see (malloc, calloc, realloc of the lexer's state and of large blocks) are refused. The scanner's other requests end the process by design of flex, and operator new throws."]),
    "C31": dict(steps=[engine(), engine("asan")], assumptions=SANE + ["Lists are changed element by element; objects without constructors (WITH descriptions, locking clauses, assignments) are filled completely."]),
    "C28": dict(steps=[engine(scale=3.0)], assumptions=SANE + ["Limits of time and memory are generous multiples of linear growth."]),
})

# Coverage-guided search after the generators.
for p, f in (("C01", fuzz("content", 0, 800000)), ("C14", fuzz("accept", 8000, 1500000)), ("C15", fuzz("invalid", 0, 800000)), ("C16", fuzz("errpos", 0, 1000000)), ("C27", fuzz("lex", 0, 1500000))):
    PLANS[p]["steps"].append(f)

# technique, level note
REFT = "grammar-based random generation, differential against an independent reference parser"
REFN = "Random exploration of the stated space with a structured generator and shrinking; sound up to the reference parser, exhaustive only where the rule says enumerated."
NOTES = {
    "C01": (REFT, REFN), "C02": ("exhaustive operator pairs and triples plus random chains, differential against a reference parser and metamorphic full parenthesisation", REFN),
    "C03": (REFT, REFN), "C04": (REFT, REFN), "C05": (REFT, REFN), "C06": (REFT, REFN), "C08": (REFT, REFN), "C09": (REFT, REFN), "C10": (REFT, REFN),
    "C07": ("enumerated and random constraint sequences against a counting oracle", "All constraint sequences up to length four in one column, random ones beyond; the oracle is independent of any parser."),
    "C11": ("value-first generation of literals; the written value is the oracle", "Random values with emphasis on boundaries of the ranges, in all places that take a literal."),
    "C12": ("name-first generation, all keywords enumerated; the written name is the oracle", "Every keyword and every name place is covered in each run; names are sampled."),
    "C13": ("metamorphic testing: two layouts and spellings of one token sequence", "Needs no reference for the meaning, only that two texts mean the same."),
    "C14": ("token-level mutation of generated texts, acceptance differential against a reference parser", REFN),
    "C15": ("insertion of untokenizable pieces into generated texts, oracle by a reference lexer", REFN),
    "C16": ("mutated texts, error position differential against a reference parser", REFN),
    "C17": ("metamorphic testing: joined statements against each alone", "Needs no reference parser."),
    "C18": ("generated multi-statement texts, reference positions and re-parsing of the pieces", REFN),
    "C19": ("generated placeholders in all places, invariant over list and tree plus reference positions", REFN),
    "C27": ("random texts and tokens, differential against a reference lexer, metamorphic layouts and concatenation", REFN),
    "C20": ("generated and mutated byte strings under AddressSanitizer, UndefinedBehaviorSanitizer and valgrind, ownership invariant over the tree", "Sanitizers decide each run; the inputs are sampled."),
    "C21": ("generated texts with errors at every token and ten ways of disposal, allocation balance as the oracle", "Exact count of allocations per run; the texts are sampled."),
    "C22": ("model-based testing: random operation histories against a reference model of results", "Histories of up to 120 operations over four results; the model covers everything a result reports."),
    "C23": ("metamorphic testing: same text after different histories, memory contents and in a new process", "Memory is filled with complementary bytes, so that a dependence on it shows in one comparison."),
    "C24": ("generated concurrent workloads, differential against one thread, and under ThreadSanitizer", "Schedules are sampled by the operating system; ThreadSanitizer generalises over the order of accesses seen."),
    "C32": ("model-based testing: random sequences of hand-overs between threads, against the result in one thread, with the balance of allocations, and under ThreadSanitizer", "Sequences are sampled; schedules of concurrent readers are sampled by the operating system."),
    "C25": ("metamorphic testing: same text under different locales", "All locales in every case."),
    "C26": ("generated statements, printed text differential against a printer for the reference parser's statements", REFN),
    "C29": ("generated statements and column types, invariants between accessors, comparisons, printed names and fields", "Every object of every generated result is visited; pairs of column types are sampled around differences in one bit of one field."),
    "C30": ("metamorphic testing: one text through all entry points and lifetimes of the text", "All entry points in every case; texts are sampled."),
    "C33": ("fault injection: generated texts with refused memory requests, against the result without the fault, with the balance of allocations", "Every refusable request of the lexer's set-up, on sampled texts."),
    "C31": ("random statements rebuilt through the public interface, differential against the parsed ones; random sequences of changes under AddressSanitizer and with the balance of allocations", "All constructors and factory functions take part; statements, changes and orders of destruction are sampled."),
    "C28": ("generated deep, long and wide texts, the expected content as the oracle, and the time of a quarter of the text against that of the whole", "Sizes up to those in the rule; stack and memory are limited."),
}
