"""C26: programs instrumented with the shipped ABI lists, and what their library calls reach.

The programs are made by clang's DataFlowSanitizer (the pass of the repository needs an LLVM that is not
installed; both pick the treatment of a function from the lists alike) and run with a recorder in the
place of every library function, wrapper and instrumented function. The wrappers that exist are those of
the runtime built from the tree."""
import hashlib
import os
import random
import re
import subprocess

import runner
from driver import Check

LISTS = os.path.join(runner.REPO, "polytracker", "custom_abi")
MAIN = "dfsan_abilist.txt"
# calls that the passes insert
CALLBACKS = ("__polytracker_enter_function __polytracker_leave_function __polytracker_log_conditional_branch __polytracker_log_tainted_control_flow "
             "__polytracker_log_func_entry __polytracker_log_func_exit __polytracker_taint_argv __taint_start").split()
# results depend on the arguments, and on nothing else
PURE = ("isalnum isalpha isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper abs labs llabs atoi atol atoll atof "
        "exp exp2 fabs floor fmod log modf pow round sqrt sqrtf sqrtl lrint lrintf lrintl llrint llrintf llrintl isinf isnan finite btowc wctob").split()
# how a program calls; %(f)s is the function
SHAPES = {
    "direct": " %%r = call i64 @\"%(f)s\"(i64 %%x)\n",
    "tail": " %%r = tail call i64 @\"%(f)s\"(i64 %%x)\n",
    "pointer": " store ptr @\"%(f)s\", ptr @P\n %%p = load ptr, ptr @P\n %%r = call i64 %%p(i64 %%x)\n",
    "invoke": " %%r = invoke i64 @\"%(f)s\"(i64 %%x) to label %%ok unwind label %%bad\nbad:\n %%l = landingpad { ptr, i32 } cleanup\n resume { ptr, i32 } %%l\nok:\n",
    "chosen": " %%c = icmp ne i64 %%x, 0\n %%p = select i1 %%c, ptr @\"%(f)s\", ptr null\n %%r = call i64 %%p(i64 %%x)\n",
}


def exported():
    """Functions of the C and mathematics libraries"""
    out = set()
    for lib in ("libc.so.6", "libm.so.6"):
        with open("/proc/self/maps") as f:
            path = next((l.split()[-1] for l in f if l.rstrip().endswith("/" + lib)), None)
        path = path or next(p for p in (d + lib for d in ("/lib/x86_64-linux-gnu/", "/usr/lib/x86_64-linux-gnu/", "/lib64/", "/usr/lib64/")) if os.path.exists(p))
        for l in subprocess.check_output(["nm", "-D", "--defined-only", path], text=True).splitlines():
            w = l.split()
            if w[-2] in "TWi":
                out.add(w[-1].split("@")[0])
    return out


def runtime():
    """What the runtime built from the tree defines"""
    out = set()
    for sub in ("src/libPolytracker.a", "src/compiler-rt/lib/linux/libclang_rt.dfsan-x86_64.a"):
        p = os.path.join(runner.BUILD, "plain", sub)
        for l in subprocess.run(["nm", "-g", "--defined-only", p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.splitlines():
            w = l.split()
            if len(w) == 3 and w[1] in "TWi":
                out.add(w[2])
    return out


def listed():
    out = set()
    for f in os.listdir(LISTS):
        with open(os.path.join(LISTS, f), errors="replace") as g:
            out |= set(re.findall(r"^\s*fun:([A-Za-z_]\w*)=", g.read(), re.M))
    return out


def observe(names, lists, shape, opt):
    """name -> what a call reached (n: the function, w: a wrapper, d: an instrumented version, u: a warning), label of the result"""
    d = runner.case_dir()
    p = lambda n: os.path.join(d, n)
    with open(p("a.ll"), "w") as f:
        f.write('target triple = "x86_64-pc-linux-gnu"\n@X = external global i64\n@P = external global ptr\n@R = external global i64\ndeclare i32 @__gxx_personality_v0(...)\n')
        for i, s in enumerate(names):
            f.write('declare i64 @"%s"(i64)\ndefine void @case_%d() "no-builtins" %s{\n %%x = load i64, ptr @X\n' % (s, i, "personality ptr @__gxx_personality_v0 " if shape == "invoke" else ""))
            f.write(SHAPES[shape] % dict(f=s) + " store i64 %r, ptr @R\n ret void\n}\n")
    cmd = ["clang-18", opt, "-fno-builtin", "-fsanitize=dataflow", "-fno-sanitize-ignorelist"]
    for l in lists:
        cmd += ["-mllvm", "-dfsan-abilist=" + os.path.join(LISTS, l)]
    r = runner.sh(cmd + ["-c", p("a.ll"), "-o", p("a.o")])
    if r.returncode:
        return None, r.stdout.decode(errors="replace")[-400:]
    wanted = {l.split()[-1] for l in subprocess.check_output(["nm", "-u", p("a.o")], text=True).splitlines()}
    red = ["__dfsan_unimplemented unimplemented"]
    c = ["#include <sanitizer/dfsan_interface.h>", "#include <stdio.h>", "long X = 5, R; void *P; static char H[64]; static int k;",
         "static void hit(char c) { if (k < 60) H[k++] = c; }", "void unimplemented(const char *s) { hit('u'); }"]
    for i, s in enumerate(names):
        for pre, t in (("n", s), ("w", "__dfsw_" + s), ("d", s + ".dfsan")):
            if t in wanted:
                red.append("%s %s_%d" % (t, pre, i))
                c.append("long %s_%d(long x) { hit('%s'); return 9; }" % (pre, i, pre))
        c.append('void c%d(void) __asm__("case_%d.dfsan");' % (i, i))
    c.append("int __gxx_personality_v0() { return 0; } void _Unwind_Resume(void *x) {}")
    c.append("static void (*T[])(void) = {%s};" % ",".join("c%d" % i for i in range(len(names))))
    c.append('int main() { dfsan_set_label(1, &X, 8); for (int i = 0; i < %d; i++) { k = 0; dfsan_set_label(0, &R, 8); T[i](); H[k] = 0; printf("%%s %%d\\n", H, (int)dfsan_read_label(&R, 8)); } }' % len(names))
    for n, t in (("red", red), ("s.c", c)):
        with open(p(n), "w") as f:
            f.write("\n".join(t) + "\n")
    for x in (["objcopy", "--redefine-syms=" + p("red"), p("a.o")], ["clang-18", "-O0", "-w", "-fno-builtin", "-c", p("s.c"), "-o", p("s.o")],
              ["clang-18", "-fsanitize=dataflow", p("a.o"), p("s.o"), "-o", p("prog")]):
        r = runner.sh(x)
        if r.returncode:
            raise RuntimeError("%s: %s" % (x[0], r.stdout.decode(errors="replace")[-2000:]))
    out = subprocess.run([p("prog")], stdout=subprocess.PIPE, timeout=300).stdout.decode().splitlines()
    if len(out) != len(names):
        raise RuntimeError("%d of %d calls were made" % (len(out), len(names)))
    return {n: (o.split(" ")[0], int(o.split(" ")[1])) for n, o in zip(names, out)}, None


def _one(job):
    lists, shape, opt, seed = job
    rng = random.Random("%s %s %s %s" % (lists, shape, opt, seed))
    libs, have = exported(), runtime()
    wrapped = {n[7:] for n in have if n.startswith("__dfsw_")}
    ask = {n for n in libs & (listed() | wrapped) if re.fullmatch(r"[A-Za-z_]\w*", n)} | set(PURE) | set(CALLBACKS)
    ask = sorted(ask)
    rng.shuffle(ask)
    out = []
    got, err = observe(ask, lists, shape, opt)
    if got is None:
        return job, ["a program cannot be instrumented: %s" % err], {}, ""
    stat = dict(calls=len(ask))
    for n in sorted(ask):
        hits, label = got[n]
        for h in set(hits):
            stat["reached_" + dict(n="library", w="wrapper", d="instrumented", u="with_warning").get(h, h)] = stat.get("reached_" + dict(n="library", w="wrapper", d="instrumented", u="with_warning").get(h, h), 0) + 1
        if n in wrapped and n in libs and hits != "w":
            out.append("a call of %s reaches %r (label of the result %d), not the wrapper that the runtime has" % (n, hits, label))
        if "w" in hits and n not in wrapped and n in libs:
            out.append("a call of %s needs a wrapper that the runtime does not have" % n)
        if n in PURE and hits != "w" and not (hits == "n" and label == 1):
            out.append("a call of %s with a tainted argument reaches %r, label of the result %d" % (n, hits, label))
        if n in CALLBACKS:
            if hits not in ("n", "w") or (hits == "w") != (n in wrapped) or hits == "n" and n not in have:
                out.append("the inserted call of %s reaches %r (wrapper: %s, function: %s)" % (n, hits, n in wrapped, n in have))
        if n in libs and "d" in hits:
            out.append("a call of the library function %s is taken for one of an instrumented function" % n)
    return job, out, stat, hashlib.sha1(repr(sorted(got.items())).encode()).hexdigest()[:12] + shape + opt


def run(prop, replay=None):
    ck = Check(prop)
    ck.rule = ("A case is one program that calls every function of the C and mathematics libraries that is in a list or has a wrapper, each with a tainted argument, made with a "
               "combination of lists, a way of calling and an optimization level. Cases differ in these or in what was reached.")
    ck.assumptions = ["instrumented by the DataFlowSanitizer of clang 18", "library functions, wrappers and instrumented functions are replaced by recorders"]
    runner.build(["src/libPolytracker.a", "src/compiler-rt/lib/linux/libclang_rt.dfsan-x86_64.a"])
    extra = sorted(f for f in os.listdir(LISTS) if f not in (MAIN, "CMakeLists.txt", "polytracker_abilist.txt"))
    rng = random.Random(ck.seed)
    if replay:
        jobs = [tuple(replay["job"])]
    else:
        jobs = [([MAIN], s, o, ck.seed) for s in SHAPES for o in (["-O0"] if not (ck.tier == "thorough") else ["-O0", "-O1", "-O2"])]
        jobs += [([MAIN, x], s, "-O0", ck.seed) for x in extra for s in (["direct"] if not (ck.tier == "thorough") else SHAPES)]
        jobs += [([x, MAIN], "direct", "-O0", ck.seed) for x in extra if (ck.tier == "thorough")]
        jobs.append(([MAIN] + extra, "direct", "-O1", ck.seed))
        for i in range(20 if (ck.tier == "thorough") else 2):
            jobs.append(([MAIN] + rng.sample(extra, rng.randint(1, len(extra))), rng.choice(sorted(SHAPES)), rng.choice(["-O0", "-O1", "-O2"]), ck.seed + i))
    for job, V, stat, fp in runner.pmap(_one, jobs, chunk=1):
        ck.evaluations += stat.get("calls", 1)
        ck.distinct.add(repr(job[:3]) + fp)
        ck.count("programs")
        for k, v in stat.items():
            ck.count(k, v)
        ck.sample(dict(job=list(job), seen=stat))
        for t in V[:2]:
            ck.violation("%s, %s %s: %s" % ("+".join(job[0]), job[1], job[2], t), dict(job=list(job)))
        if len(ck.violations) >= 8:
            break
    ck.finish()
