#!/usr/bin/env python3
"""Build the simulator executable for the code in /repo's working tree.

SUT units (all of /repo/src plus sim/sut) are compiled with the compiler's
thread-sanitizer instrumentation but linked against our own runtime
(sim/rt.cpp), every system call and clock read is renamed to the virtual
kernel (sim/vk.cpp), and rdtsc/cpuid/pause instructions become calls.
"""
import concurrent.futures as cf
import glob, hashlib, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("XSIM_REPO", "/repo")
BUILD = os.environ.get("XSIM_BUILD", os.path.join(VERIF, "build"))

VARIANTS = {
    "v0": ["-DXTR_SINK_CAPACITY=4096"],
    "v1": ["-DXTR_SINK_CAPACITY=65536", "-DXTR_IO_URING_POLL=1"],
}

SUT_FLAGS = ("-std=c++20 -DNDEBUG -DXTR_FUNC= -fsanitize=thread --param tsan-instrument-func-entry-exit=0 "
             "-mno-red-zone -O1 -g1 -fno-pie -w").split()
HOST_FLAGS = "-std=c++20 -O2 -g1 -fno-pie -Wall -Wextra -Wno-unused-parameter".split()

RENAMES = {}
for n in """write pwrite writev pwritev read open openat creat close dup dup2 dup3 fcntl fsync fdatasync syncfs lseek
ftruncate fstat stat lstat unlink remove rename access fileno isatty getpid gettid geteuid getenv mmap munmap mremap
mprotect madvise mlock memfd_create shm_open shm_unlink socket bind listen accept accept4 connect sendmsg send recvmsg
recv shutdown setsockopt getsockopt poll ppoll io_uring_queue_init io_uring_queue_init_params io_uring_queue_exit
io_uring_submit io_uring_submit_and_wait io_uring_wait_cqes io_uring_wait_cqe_timeout io_uring_get_events
io_uring_peek_batch_cqe io_uring_register_buffers io_uring_unregister_buffers __io_uring_get_cqe __io_uring_sqring_wait
syscall exit _exit abort malloc free calloc realloc memcpy memmove memset memcmp memchr strlen strcmp strcpy
strncpy stderr stdout""".split():
    RENAMES[n] = "sim_" + n
for n in ["open", "fcntl", "lseek", "ftruncate", "mmap", "pwrite", "fstat", "stat", "lstat", "openat", "creat"]:
    RENAMES[n + "64"] = "sim_" + n + "64"
RENAMES.update({
    "__cxa_guard_acquire": "sim_guard_acquire", "__cxa_guard_release": "sim_guard_release",
    "__cxa_guard_abort": "sim_guard_abort", "__cxa_thread_atexit": "sim_thread_atexit",
    "_ZSt4cerr": "sim_cerr", "_ZSt4clog": "sim_clog", "_ZSt4cout": "sim_cout",
    "__memcpy_chk": "sim_memcpy_chk", "__memmove_chk": "sim_memmove_chk",
})
DEFSYMS = ["-Wl,--defsym=%s=%s" % (b, b.replace("64", "").replace("_chk", "")) for b in RENAMES.values()
           if b.endswith("64") or b.endswith("_chk")]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
                h.update(b"\0")
    return h.hexdigest()[:20]


def _insn(names):
    return re.compile(r"(^|;)[ \t]*(?:%s)[ \t]*(?=;|#|$)" % names, re.M)


ASM_SUBS = [
    (_insn("rdtscp?"), r"\1\tcall sim_rdtsc_thunk"),
    (_insn("cpuid"), r"\1\tcall sim_cpuid_thunk"),
    (_insn(r"pause|rep;?[ \t]*nop"), r"\1\tcall sim_pause_thunk"),
]


def compile_sut(src, out, flags):
    s = out[:-2] + ".s"
    extra = ["-Dmain=xtrctl_main"] if os.path.basename(src) == "xtrctl.cpp" else []
    run(["g++", *SUT_FLAGS, *flags, *extra, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "sut"),
         "-S", src, "-o", s])
    t = open(s).read()
    for rx, to in ASM_SUBS:
        t = rx.sub(to, t)
    if re.search(r"(^|;)[ \t]*(rdtscp?|cpuid|rdrand|rdseed|syscall)\b", t, re.M):
        raise BuildError("an instruction the simulator cannot control is left in " + src)
    open(s, "w").write(t)
    run(["as", s, "-o", out])
    os.unlink(s)


def compile_host(src, out):
    run(["g++", *HOST_FLAGS, "-I" + HERE, "-I" + os.path.join(HERE, "sut"), "-c", src, "-o", out])


def build(variants=("v0", "v1"), jobs=8, quiet=True):
    """returns {variant: path of executable}"""
    os.makedirs(BUILD, exist_ok=True)
    hh = tree_hash(HERE)
    sh = hashlib.sha256((tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "include")) + hh).encode()).hexdigest()[:20]
    out = {}
    todo = []
    for v in variants:
        exe = os.path.join(BUILD, "xsim-%s-%s" % (sh, v))
        out[v] = exe
        if not os.path.exists(exe):
            todo.append(v)
    if not todo:
        return out
    # drop products of other trees
    for p in glob.glob(os.path.join(BUILD, "*")):
        b = os.path.basename(p)
        if b.startswith("xsim-") and sh not in b:
            os.unlink(p)
        elif b.startswith("host-") and hh not in b:
            shutil.rmtree(p, ignore_errors=True)
        elif b.startswith("obj-"):
            shutil.rmtree(p, ignore_errors=True)
    hdir = os.path.join(BUILD, "host-" + hh)
    os.makedirs(hdir, exist_ok=True)
    tasks = []
    for v in todo:
        od = os.path.join(BUILD, "obj-" + v)
        os.makedirs(od, exist_ok=True)
        srcs = sorted(glob.glob(os.path.join(HERE, "sut", "*.cpp"))) + sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
        for s in srcs:
            o = os.path.join(od, ("r_" if s.startswith(REPO + "/") else "g_") + os.path.basename(s)[:-4] + ".o")
            tasks.append((0 if "stmts" in s else 1, lambda s=s, o=o, v=v: compile_sut(s, o, VARIANTS[v])))
    hobjs = []
    for s in sorted(glob.glob(os.path.join(HERE, "*.cpp"))):
        o = os.path.join(hdir, os.path.basename(s)[:-4] + ".o")
        hobjs.append(o)
        if not os.path.exists(o):
            def one(s=s, o=o):
                compile_host(s, o + ".tmp")
                os.rename(o + ".tmp", o)
            tasks.append((0, one))
    tasks.sort(key=lambda t: t[0])
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(t[1]) for t in tasks]:
            f.result()
    syms = os.path.join(BUILD, "syms.txt")
    with open(syms, "w") as f:
        for a, b in sorted(RENAMES.items()):
            f.write("%s %s\n" % (a, b))
    ends = {}
    for which in ("begin", "end"):
        s = os.path.join(hdir, which + ".s")
        open(s, "w").write(".data\n.balign 64\n.globl sut_data_%s\nsut_data_%s:\n.zero 64\n.bss\n.balign 64\n"
                           ".globl sut_bss_%s\nsut_bss_%s:\n.zero 64\n.section .note.GNU-stack,\"\",@progbits\n" % ((which,) * 4))
        ends[which] = os.path.join(hdir, which + ".o_")
        run(["as", s, "-o", ends[which]])
    for v in todo:
        od = os.path.join(BUILD, "obj-" + v)
        objs = sorted(glob.glob(os.path.join(od, "*.o")))
        one = os.path.join(od, "sut_all.o_")
        run(["ld", "-r", "--force-group-allocation", "-o", one, *objs])
        keep = os.path.join(BUILD, "keep.txt")
        names = run(["nm", "--defined-only", "-g", one])
        with open(keep, "w") as f:
            for ln in names.splitlines():
                n = ln.split()[-1]
                if n.startswith("g_"):
                    f.write(n + "\n")
        two = os.path.join(od, "sut_fin.o_")
        run(["objcopy", "--redefine-syms=" + syms, "--keep-global-symbols=" + keep, one, two])
        exe = out[v]
        run(["g++", "-no-pie", "-o", exe + ".tmp", ends["begin"], two, ends["end"], *hobjs, "-lfmt", "-luring", "-ldl", "-Wl,-z,norelro", *DEFSYMS])
        os.rename(exe + ".tmp", exe)
        shutil.rmtree(od, ignore_errors=True)
    return out


if __name__ == "__main__":
    try:
        vs = sys.argv[1:] or list(VARIANTS)
        for v, p in build(vs).items():
            print(v, p)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
