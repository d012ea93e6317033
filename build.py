"""Builds the code under test from /repo's working tree, by way of its own generator,
create.py and CMake files, into /verif/build. Everything is keyed by the content of what
it is built from, so a changed tree is always rebuilt and an unchanged one is reused."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.realpath(__file__))
REPO = os.environ.get("SIMINT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4

ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
for k in ("CFLAGS", "CXXFLAGS", "FFLAGS", "LDFLAGS", "CC", "CXX", "FC"):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def sh(cmd, log, cwd=None, env=None, timeout=800):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        try:
            r = subprocess.run(cmd, stdout=f, stderr=f, cwd=cwd, env=env or ENV, timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise BuildError("timed out: {} (log: {})".format(" ".join(cmd[:4]), log))
    if r.returncode != 0:
        tail = open(log, "rb").read()[-1500:].decode(errors="replace")
        raise BuildError("failed: {}\n{}".format(" ".join(cmd[:6]), tail))


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode() + b"\0" + open(p, "rb").read())
            continue
        for d, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                q = os.path.join(d, f)
                if "__pycache__" in q or os.path.islink(q) and not os.path.exists(q):
                    continue
                h.update(q.encode() + b"\0")
                with open(q, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def text_hash(*a):
    return hashlib.sha256("\0".join(a).encode()).hexdigest()[:16]


class locked:
    """One builder at a time per directory; a finished build is marked by a file."""

    def __init__(self, d):
        self.d = d

    def __enter__(self):
        os.makedirs(os.path.dirname(self.d), exist_ok=True)
        self.f = open(self.d + ".lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()

    def done(self):
        if os.path.exists(os.path.join(self.d, "DONE")):
            os.utime(os.path.join(self.d, "DONE"))
            return True
        return False

    def fresh(self):
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)

    def mark(self):
        open(os.path.join(self.d, "DONE"), "w").close()


def prune(keep_bytes=12 << 30, keep=60):
    """Drop the oldest finished builds so that repeated changes do not fill the disk."""
    if not os.path.isdir(BUILD):
        return
    ents = []
    for e in os.listdir(BUILD):
        m = os.path.join(BUILD, e, "DONE")
        if os.path.exists(m):
            ents.append((os.path.getmtime(m), e))
    ents.sort(reverse=True)
    for t, e in ents[keep:]:
        if time.time() - t > 1800:
            shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)


def generator(ordering="Psi4", cxx="g++", flags="-O1"):
    """The generator programs; returns the directory to give to create.py -g."""
    key = tree_hash([os.path.join(REPO, "generator"), os.path.join(REPO, "CMakeLists.txt")]) + ("" if ordering == "Psi4" else ordering)
    if (cxx, flags) != ("g++", "-O1"):
        key += "-" + text_hash(cxx, flags)
    d = os.path.join(BUILD, "gen-" + key)
    with locked(d) as L:
        if not L.done():
            L.fresh()
            log = os.path.join(d, "log")
            sh(["cmake", "-S", REPO, "-B", d + "/b", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_CXX_FLAGS=" + flags + " -std=gnu++17",
                "-DSIMINT_ORDERING=" + ordering, "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"], log)
            sh(["ninja", "-C", d + "/b"], log)
            L.mark()
    return d + "/b/generator/ostei"


WRAPPER = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* Runs the real generator for the listed quartets; for any other one writes functions that
   return the number of their quartet. */
static const char *am = "spdfghik";
int main(int argc, char **argv)
{
    int q[4] = {0}, perm = 0;
    const char *out = 0, *head = 0;
    for(int i = 1; i < argc; i++)
    {
        if(!strcmp(argv[i], "-q")) for(int k = 0; k < 4; k++) q[k] = atoi(argv[++i]);
        else if(!strcmp(argv[i], "-o")) out = argv[++i];
        else if(!strcmp(argv[i], "-oh")) head = argv[++i];
        else if(!strcmp(argv[i], "-p")) perm = 1;
    }
    char me[8];
    snprintf(me, sizeof me, "%d%d%d%d", q[0], q[1], q[2], q[3]);
    static const char *real[] = { REAL NULL };
    for(int i = 0; real[i]; i++)
        if(!strcmp(real[i], me)) { execv(PROGRAM, argv); perror("exec"); return 3; }
    FILE *f = fopen(out, "w"), *h = fopen(head, "a");
    if(!f || !h) { perror("stub"); return 3; }
    setvbuf(h, NULL, _IOFBF, 1 << 16);
    for(int s = 0; s < (perm ? 4 : 1); s++)
    {
        int p[4] = {q[0], q[1], q[2], q[3]};
        if(s & 1) { if(q[0] == q[1]) continue; p[0] = q[1]; p[1] = q[0]; }
        if(s & 2) { if(q[2] == q[3]) continue; p[2] = q[3]; p[3] = q[2]; }
        fprintf(f, "int " PREFIX "_%c_%c_%c_%c(void) { return %d; }\n", am[p[0]], am[p[1]], am[p[2]], am[p[3]], 1000000 + DERIV * 100000 + p[0] * 1000 + p[1] * 100 + p[2] * 10 + p[3]);
        fprintf(h, "int " PREFIX "_%c_%c_%c_%c(struct simint_multi_shellpair const P, struct simint_multi_shellpair const Q, double tol, double * const restrict work, double * const restrict out);\n", am[p[0]], am[p[1]], am[p[2]], am[p[3]]);
    }
    return fclose(f) || fclose(h) ? 3 : 0;
}
"""


def partial_generator(quartets, ordering="Psi4"):
    """A generator directory that does the real work only for some quartets: quartets maps "0" and "1"
    (the derivative order) to lists such as ["4321"]. Returns (directory, salt)."""
    g = generator(ordering)
    salt = text_hash(WRAPPER, ordering, repr(sorted((k, sorted(v)) for k, v in quartets.items())))
    d = os.path.join(BUILD, "part-" + text_hash(g, salt))
    with locked(d) as L:
        if not L.done():
            L.fresh()
            for dv, nm in (("0", "ostei"), ("1", "ostei_deriv1")):
                real = "".join('"{}", '.format(x) for x in quartets.get(dv, []))
                with open(d + "/w.c", "w") as f:
                    f.write('#define REAL {}\n#define PROGRAM "{}/{}_generator"\n#define PREFIX "{}"\n#define DERIV {}\n'.format(real, g, nm, nm, dv) + WRAPPER)
                sh(["gcc", "-O1", "-w", d + "/w.c", "-o", "{}/{}_generator".format(d, nm)], d + "/log")
            for nm in ("ostei_hrr", "ostei_vrr"):
                os.symlink("{}/{}_generator".format(g, nm), "{}/{}_generator".format(d, nm))
            L.mark()
    return d, salt


def source(opts, gendir=None, salt=""):
    """A generated source tree; returns its directory."""
    g = gendir or generator()
    key = text_hash(g if not gendir else salt + generator(), tree_hash([os.path.join(REPO, "skel"), os.path.join(REPO, "create.py")]), *opts)
    d = os.path.join(BUILD, "src-" + key)
    with locked(d) as L:
        if not L.done():
            L.fresh()
            sh([sys.executable, os.path.join(REPO, "create.py"), "-g", g, "-n", str(NCPU)] + list(opts) + [d + "/s"], os.path.join(d, "log"))
            L.mark()
    return d + "/s"


# how to compile code that includes the library's headers, per instruction set
ISA = {
    "scalar": ["-msse2"], "sse": ["-msse2"], "avx": ["-mavx"], "avx2": ["-mavx2", "-mfma"],
    "avx512": ["-mavx512f", "-mavx512cd", "-mavx512dq", "-mavx512bw", "-mavx512vl", "-mfma", "-mavx2"],
}
ISA["commonavx512"] = ["-mavx512f", "-mavx512cd", "-mfma", "-mavx2"]


def isa_of(vector):
    return ISA[vector.split("-")[-1]]


def cpu_has(vector):
    need = {"avx": ["avx"], "avx2": ["avx2", "fma"], "avx512": ["avx512f", "avx512dq", "avx512bw", "avx512vl"], "commonavx512": ["avx512f", "avx512cd"]}
    flags = set()
    for line in open("/proc/cpuinfo"):
        if line.startswith("flags"):
            flags = set(line.split(":")[1].split())
            break
    return all(f in flags for f in need.get(vector.split("-")[-1], []))


def library(opts, vector, cflags="-O1", cc="gcc", defs=(), gendir=None, salt="", fortran=False, tool="Ninja"):
    """A built static library; returns (source dir, build dir)."""
    s = source(opts, gendir, salt)
    key = text_hash(s, vector, cflags, cc, str(fortran), tool, *defs)
    d = os.path.join(BUILD, "lib-" + key)
    with locked(d) as L:
        if not L.done():
            L.fresh()
            log = os.path.join(d, "log")
            cxx = {"gcc": "g++", "clang": "clang++"}[cc]
            sh(["cmake", "-S", s, "-B", d + "/b", "-G", tool, "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_CXX_COMPILER=" + cxx,
                "-DCMAKE_C_FLAGS=" + cflags, "-DENABLE_TESTS=OFF", "-DENABLE_FORTRAN=" + ("ON" if fortran else "OFF"),
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DSIMINT_VECTOR=" + vector] + ["-D" + x for x in defs], log)
            sh(["cmake", "--build", d + "/b", "-j", str(NCPU), "--target", "simint"], log)
            L.mark()
    return s, d + "/b"


SOURCES = ["main.cpp", "eri_props.cpp", "shell_props.cpp", "osoei_props.cpp", "num_props.cpp"]


def reference():
    """The reference integrals, shared by all configurations and never instrumented."""
    H = os.path.join(VERIF, "harness")
    key = tree_hash([H + "/ref.cpp", H + "/ref.hpp"])
    d = os.path.join(BUILD, "ref-" + key)
    with locked(d) as L:
        if not L.done():
            L.fresh()
            sh(["g++", "-std=c++17", "-O3", "-c", H + "/ref.cpp", "-o", d + "/ref.o"], d + "/log")
            L.mark()
    return d + "/ref.o"


def harness(srcdir, libdir, vector, cxx="g++", extra=(), sources=None):
    """The harness linked against one library; returns the program."""
    H = os.path.join(VERIF, "harness")
    sources = sources or SOURCES
    ref = reference()
    key = text_hash(libdir, vector, cxx, ref, tree_hash([H]), *extra, *sources)
    d = os.path.join(BUILD, "h-" + key)
    with locked(d) as L:
        if not L.done():
            L.fresh()
            # -fwrapv: gcc 13 at -O1 was seen to drop a condition of the harness next to a lane + 1
            base = [cxx, "-std=c++17", "-O1", "-fwrapv", "-g1", "-w"] + isa_of(vector) + list(extra) + ["-I" + srcdir, "-I" + libdir + "/stage", "-I" + libdir]
            procs = []
            for f in sources:
                log = open(os.path.join(d, f + ".log"), "wb")
                procs.append((f, subprocess.Popen(base + ["-c", H + "/" + f, "-o", d + "/" + f + ".o"], stdout=log, stderr=log, env=ENV)))
            bad = [f for f, p in procs if p.wait() != 0]
            if bad:
                raise BuildError("harness: " + bad[0] + "\n" + open(os.path.join(d, bad[0] + ".log")).read()[-1500:])
            omp = ["-fopenmp"] if cxx == "g++" else []
            sh([cxx] + list(extra) + [d + "/" + f + ".o" for f in sources] + [ref, libdir + "/simint/libsimint.a"] + omp + ["-lm", "-lpthread", "-o", d + "/h"], d + "/log")
            L.mark()
    return d + "/h"


def fortran_pair(srcdir, libdir, vector, maxder, cc="gcc"):
    """The C and the Fortran driver of the interface comparison; returns both programs."""
    H = os.path.join(VERIF, "harness", "fortran")
    key = text_hash(libdir, vector, cc, str(maxder), tree_hash([H]))
    d = os.path.join(BUILD, "f-" + key)
    with locked(d) as L:
        if not L.done():
            L.fresh()
            log = d + "/log"
            inc = isa_of(vector) + ["-I" + srcdir, "-I" + libdir + "/stage", "-I" + libdir]
            sh([cc, "-std=gnu11", "-O0", "-w"] + inc + ["-c", H + "/const.c", "-o", d + "/const.o"], log)
            sh([cc, "-std=gnu11", "-O0", "-w"] + inc + ["-c", H + "/driver.c", "-o", d + "/c.o"], log)
            sh(["gfortran", "-cpp", "-DMAXDER={}".format(maxder), "-O0", "-w", "-I" + libdir + "/simint", "-J" + d, "-c", H + "/driver.f90", "-o", d + "/f.o"], log)
            tail = [d + "/const.o", libdir + "/simint/libsimint.a", "-fopenmp", "-lm"]
            sh(["gfortran", d + "/c.o"] + tail + ["-o", d + "/cdriver"], log)
            sh(["gfortran", d + "/f.o"] + tail + ["-o", d + "/fdriver"], log)
            L.mark()
    return d + "/cdriver", d + "/fdriver"


FAULTY = r"""
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
/* Counts the calls of this generator program and misbehaves on the chosen one. */
int main(int argc, char **argv)
{
    const char *dir = getenv("FAULT_DIR"), *prog = getenv("FAULT_PROG"), *kind = getenv("FAULT_KIND");
    char path[4096];
    snprintf(path, sizeof path, "%s/%s", dir, NAME);
    int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if(fd < 0) { perror(path); return 3; }
    flock(fd, LOCK_EX);
    struct stat st;
    if(fstat(fd, &st) || write(fd, ".", 1) != 1) { perror(path); return 3; }
    flock(fd, LOCK_UN);
    close(fd);
    int hit = prog && !strcmp(prog, NAME) && st.st_size == atol(getenv("FAULT_K"));
    if(hit)
    {
        snprintf(path, sizeof path, "%s/HIT", dir);
        close(open(path, O_WRONLY | O_CREAT, 0644));
        if(!strncmp(kind, "exit", 4)) return atoi(kind + 4);
        if(!strncmp(kind, "signal", 6)) { struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(atoi(kind + 6), SIG_DFL); kill(getpid(), atoi(kind + 6)); pause(); }
        if(!strncmp(kind, "limit", 5))
        {
            struct rlimit z = {atol(kind + 5), atol(kind + 5)};
            signal(SIGXFSZ, SIG_IGN);
            setrlimit(RLIMIT_FSIZE, &z);
        }
        if(!strncmp(kind, "after", 5))
        {
            pid_t p = fork();
            if(p == 0) { execv(PROGRAM, argv); _exit(3); }
            int s;
            waitpid(p, &s, 0);
            return atoi(kind + 5);
        }
        if(!strncmp(kind, "full-", 5) || !strncmp(kind, "open-", 5))
        {
            /* one file alone cannot be written (a device that is always full) or opened (a directory) */
            const char *opt = !strcmp(kind + 5, "source") ? "-o" : !strcmp(kind + 5, "header") ? "-oh" : NULL;
            char *file = NULL, saved[4096];
            int k, status = 0, had = 0;
            for(k = 1; opt && k + 1 < argc; k++)
                if(!strcmp(argv[k], opt)) file = argv[k + 1];
            if(!opt) { int f = open("/dev/full", O_WRONLY); dup2(f, 1); dup2(f, 2); execv(PROGRAM, argv); return 3; }
            if(!file) return 3;
            snprintf(saved, sizeof saved, "%s/saved", dir);
            had = !rename(file, saved);
            if(!strncmp(kind, "full", 4) ? symlink("/dev/full", file) : mkdir(file, 0755)) return 3;
            pid_t p = fork();
            if(p == 0) { execv(PROGRAM, argv); _exit(3); }
            waitpid(p, &status, 0);
            if(!strncmp(kind, "full", 4)) unlink(file); else rmdir(file);
            if(had) rename(saved, file);
            else if(!strncmp(kind, "full", 4)) close(open(file, O_WRONLY | O_CREAT, 0644));
            return WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
        }
        if(!strcmp(kind, "killall")) { kill(0, SIGKILL); pause(); }
    }
    execv(PROGRAM, argv);
    perror(PROGRAM);
    return 3;
}
"""


def faulty_generator():
    """A generator directory whose programs misbehave as the environment says."""
    g = generator()
    d = os.path.join(BUILD, "fault-" + text_hash(g, FAULTY))
    with locked(d) as L:
        if not L.done():
            L.fresh()
            for nm in ("ostei", "ostei_deriv1", "ostei_hrr", "ostei_vrr"):
                with open(d + "/w.c", "w") as f:
                    f.write('#define NAME "{0}"\n#define PROGRAM "{1}/{0}_generator"\n'.format(nm, g) + FAULTY)
                sh(["gcc", "-O1", "-w", d + "/w.c", "-o", "{}/{}_generator".format(d, nm)], d + "/log")
            L.mark()
    return d
