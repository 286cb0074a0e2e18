#!/usr/bin/env python3
# Build the simulator from the library's current sources. Everything goes to /verif/build.
import concurrent.futures, fcntl, glob, hashlib, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))
GCC, GXX = "/usr/bin/gcc", "/usr/bin/g++"
if not os.path.exists(GCC): GCC, GXX = "gcc", "g++"
LIB = ["-std=gnu99", "-O1", "-g", "-w", "-fno-pic", "-fno-builtin", "-fstack-protector-all", "-ftrivial-auto-var-init=pattern", "-fsanitize=thread",
       "-U_FORTIFY_SOURCE", "-fno-common", "-fno-strict-aliasing", "-D_FILE_OFFSET_BITS=64", "-D_REENTRANT", "-D_GNU_SOURCE",
       "-march=nocona", "-include", os.path.join(HERE, "shim.h"), "-I" + os.path.join(REPO, "src/include"), "-I" + HERE]
HAR = ["-std=c++17", "-O2", "-g", "-w", "-fno-exceptions", "-fno-stack-protector", "-fno-pie", "-U_FORTIFY_SOURCE",
       "-D_GNU_SOURCE", "-D_FILE_OFFSET_BITS=64", "-D_REENTRANT", "-march=nocona", "-I" + os.path.join(REPO, "src/include"), "-I" + HERE]

def sha(data): return hashlib.sha256(data).hexdigest()
def read(p):
    with open(p, "rb") as f: return f.read()
def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
        raise SystemExit(2)

def tls(s):
    """Assembly text in which thread-local variables are looked up by sim_tls_addr in memory of the current simulated thread."""
    s = re.sub(r'\.section\s+\.t(bss|data)[^\n]*', '.section\tsimtls,"aw",@progbits', s)
    s = re.sub(r'leaq\s+([^\s,]+)@tlsgd\(%rip\)', r'leaq\t\1(%rip)', s)
    s = re.sub(r'leaq\s+[^\s,]+@tlsld\(%rip\), %rdi', 'xorl\t%edi, %edi', s)
    s = s.replace("@dtpoff", "").replace("__tls_get_addr@PLT", "sim_tls_addr").replace("*__tls_get_addr@GOTPCREL(%rip)", "sim_tls_addr")
    if re.search(r"@(tls|tpoff|gottpoff)|__tls_get_addr", s): raise SystemExit("build failed: thread-local variable not understood")
    return s

def build():
    """Return the path of the simulator binary for the current tree."""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = sorted(glob.glob(os.path.join(REPO, "src/main/**/*.c"), recursive=True))
        hdrs = sorted(glob.glob(os.path.join(REPO, "src/include/**/*.h"), recursive=True) + glob.glob(os.path.join(REPO, "src/main/**/*.h"), recursive=True))
        ver = subprocess.run([GCC, "--version"], stdout=subprocess.PIPE).stdout
        hh = sha(b"".join(p.encode() + b"\0" + read(p) for p in hdrs) + ver)
        mine = sorted(glob.glob(os.path.join(HERE, "*.h")))
        mh = sha(b"".join(read(p) for p in mine))
        objs, jobs = [], []
        odir = os.path.join(OUT, "obj"); os.makedirs(odir, exist_ok=True)
        def want(src, flags, cc, extra):
            k = sha((src + " ".join(flags) + extra + hh).encode() + read(src))[:24]
            o = os.path.join(odir, os.path.basename(src).replace(".", "_") + "." + k + ".o")
            if not os.path.exists(o): jobs.append((cc, flags, src, o))
            return o
        shim = sha(read(os.path.join(HERE, "shim.h")))
        # Password hashing is a long pure computation: no need to look at its accesses.
        pure = lambda s: [f for f in LIB if f != "-fsanitize=thread"] if s.endswith("/crypt_blowfish.c") else pic(s)
        # Thread-local variables are found through a function of the simulator.
        word = re.compile(rb"(?<!#define )\b(__thread|_Thread_local|thread_local)\b")
        every = any(word.search(read(p)) for p in hdrs)
        pic = lambda s: LIB + ["-fPIC"] if every or word.search(read(s)) else LIB
        lib = [want(s, pure(s), GCC, shim) for s in srcs]
        # Macros and inline functions of the headers are taken as written: the users' compilers need not merge accesses.
        flat = lambda s: [f if f != "-O1" else "-O0" for f in LIB] if s.endswith("_misc.c") else LIB + (["-fPIC"] if every else [])
        lib += [want(s, flat(s), GCC, shim + mh) for s in sorted(glob.glob(os.path.join(HERE, "*.c")))]
        har = [want(s, HAR, GXX, mh) for s in sorted(glob.glob(os.path.join(HERE, "*.cc")))]
        redef = os.path.join(HERE, "redefine.txt")
        key = sha("".join(lib + har).encode() + read(redef) + read(__file__))[:24]
        exe = os.path.join(OUT, "sim." + key)
        if os.path.exists(exe):
            os.utime(exe)
            return exe
        def comp(j):
            cc, flags, src, o = j
            if "-fPIC" in flags:
                sh([cc] + flags + ["-S", src, "-o", o + ".s"])
                with open(o + ".s") as f: text = tls(f.read())
                with open(o + ".s", "w") as f: f.write(text)
                sh([cc, "-c", o + ".s", "-o", o + ".tmp"])
                os.unlink(o + ".s")
            else: sh([cc] + flags + ["-c", src, "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(comp, jobs))
        raw, obj = os.path.join(OUT, "raw.o"), os.path.join(OUT, "lib.o")
        sh(["ld", "-r", "-o", raw] + lib)
        secs = ["--rename-section", ".data=libdata", "--set-section-flags", ".bss=alloc,load,contents,data", "--rename-section", ".bss=libbss"]
        sh(["objcopy", "--redefine-syms=" + redef] + secs + [raw, obj])
        sh([GXX, "-no-pie", "-fno-pie", "-o", exe + ".tmp"] + har + [obj, "-lcrypto", "-lpthread"])
        os.rename(exe + ".tmp", exe)
        os.unlink(raw); os.unlink(obj)
        # Keep the cache small.
        olds = sorted(glob.glob(os.path.join(OUT, "sim.*")), key=os.path.getmtime)[:-4]
        for f in olds: os.unlink(f)
        live = set(lib + har)
        os_ = sorted(glob.glob(os.path.join(odir, "*.o")), key=os.path.getmtime)
        for f in os_[:-600]:
            if f not in live: os.unlink(f)
        return exe

if __name__ == "__main__":
    print(build())
