"""Shared machinery: build the tree under test, run exhaustively enumerated potion programs."""
import atexit, hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
NPROC = int(os.environ.get("VP_JOBS", "8"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
AGREE = None


class CheckError(Exception):
    pass


def _tree_hash():
    out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-c", "-o",
                          "--exclude-standard"], check=True, stdout=subprocess.PIPE).stdout.decode()
    h = hashlib.sha256()
    for f in sorted(set(out.split("\0"))):
        p = os.path.join(REPO, f)
        if f and os.path.isfile(p) and not f.startswith(("test/", "doc/", "example/")):
            h.update(f.encode() + b"\0" + hashlib.sha256(open(p, "rb").read()).digest())
    for f in ("build.sh",):
        h.update(open(os.path.join(VERIF, "lib", f), "rb").read())
    h.update(os.environ.get("VP_G", "").encode())
    return h.hexdigest()[:20]


def build():
    """Builds /repo's working tree; returns the build directory. Cached by content."""
    key = _tree_hash()
    root = os.path.join(VERIF, ".build")
    d = os.path.join(root, key)
    if not os.path.exists(d + "/.ok"):
        os.makedirs(root, exist_ok=True)
        # keep the cache small
        olds = sorted((os.path.join(root, x) for x in os.listdir(root)), key=os.path.getmtime)
        for o in olds[:-2]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="b", dir=root)
        env = dict(os.environ, REPO=REPO)
        r = subprocess.run([os.path.join(VERIF, "lib", "build.sh"), os.path.join(tmp, "t")], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
            shutil.rmtree(tmp, ignore_errors=True)
            raise CheckError("build of the tree under test failed")
        open(os.path.join(tmp, "t", ".ok"), "w").close()
        shutil.rmtree(d, ignore_errors=True)
        try:
            os.rename(os.path.join(tmp, "t"), d)
        except OSError:
            pass  # somebody else built the same tree
        shutil.rmtree(tmp, ignore_errors=True)
    os.utime(d)
    return d


def cc_flags(b):
    r = subprocess.run(["make", "-s", "-C", b, "--eval=vp-cf: ; @echo $(CFLAGS)", "vp-cf"], check=True,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return r.stdout.decode().split() + ["-w"]


def harness(src, extra=(), libs=("-lm", "-ldl", "-lpthread"), name=None):
    """Compiles /verif/lib/SRC against the build; returns the executable."""
    b = build()
    src = os.path.join(VERIF, "lib", src)
    key = hashlib.sha256(open(src, "rb").read() + open(os.path.join(os.path.dirname(src), "natives.c"), "rb").read() + repr(extra).encode()).hexdigest()[:12]
    exe = os.path.join(b, "h-%s-%s" % (name or os.path.basename(src).split(".")[0], key))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        cmd = ["clang"] + cc_flags(b) + ["-I" + b + "/core", "-I" + b, src] + list(extra) + \
              [b + "/lib/libpotion.a", "-o", tmp] + list(libs)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
            raise CheckError("harness build failed")
        os.rename(tmp, exe)
    return exe


def pnrun(libs=False):
    if libs:
        b = build()
        return harness("pnrun.c", extra=("-Wl,--wrap=potion_garbagecollect", "-Wl,--wrap=mmap", "-rdynamic", "-DWITH_LIBS", b + "/lib/buffile.c",
                                         b + "/lib/database.c"),
                       libs=("-lm", "-ldl", "-lpthread", "-lsqlite3"), name="pnrunl")
    return harness("pnrun.c", extra=("-Wl,--wrap=potion_garbagecollect", "-Wl,--wrap=mmap",))


def loadso(name):
    """A library to load: the executor copies it where a case wants it."""
    b = build()
    so = os.path.join(b, "so-%s.so" % name)
    if not os.path.exists(so):
        tmp = so + ".%d" % os.getpid()
        cmd = ["clang"] + cc_flags(b) + ["-I" + b + "/core", "-shared", "-fPIC", "-DNAME=" + name,
                                         os.path.join(VERIF, "lib", "loadso.c"), "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[-2000:])
            raise CheckError("library build failed")
        os.rename(tmp, so)
    return so


class Mismatch:
    __slots__ = ("idx", "prog", "expected", "mode", "seed", "gc", "k", "got", "tag")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return "[%s seed=%s gc=%s@%s] %r: expected %s got %s" % (
            self.mode, self.seed, self.gc, self.k, self.prog, self.expected, self.got)


_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vp")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def enc(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")


def _run_chunk(exe, cases, opts, want_all):
    fd, path = tempfile.mkstemp(dir=scratch())
    with os.fdopen(fd, "wb") as f:
        for c in cases:
            p = enc(c[0])
            e = c[1]
            if e is None:
                f.write(struct.pack("<II", len(p), 0xffffffff) + p)
            else:
                e = enc(e)
                f.write(struct.pack("<II", len(p), len(e)) + p + e)
    args = [exe] + opts + (["-a"] if want_all else []) + [path]
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=scratch())
    os.unlink(path)
    lines = r.stdout.decode().splitlines()
    if r.returncode or not lines or not lines[-1].startswith("S "):
        raise CheckError("pnrun failed: rc=%d %s" % (r.returncode, r.stderr.decode(errors="replace")[-500:]))
    st = dict(x.split("=") for x in lines[-1].split()[1:])
    res = []
    for l in lines[:-1]:
        if not l.startswith("R "):
            continue
        parts = l.split(" ")
        i, mode, seed, g, k = parts[1:6]
        hx = parts[6] if len(parts) > 6 else ""
        c = cases[int(i)]
        res.append(Mismatch(idx=int(i), prog=c[0], expected=c[1], mode=mode, seed=int(seed), gc=g, k=int(k),
                            got=bytes.fromhex(hx).decode("utf-8", "surrogateescape"),
                            tag=c[2] if len(c) > 2 else None))
    return res, {k: int(v) for k, v in st.items()}


def run(cases, modes="VJ", seeds=(1,), gc="", maxk=None, cpu=5, want_all=False, chunk=None, limit_mism=None, gcparse=False,
        workdir=False, libs=False, heap=False, alone=False, reuse=None):
    """cases: iterable of (program, expected or None[, tag]). Returns (mismatches, stats)."""
    exe = pnrun(libs)
    opts = ["-m", modes, "-s", ",".join(map(str, seeds)), "-t", str(cpu)]
    if gc:
        opts += ["-g", gc] + (["-p"] if gcparse else [])
    if maxk:
        opts += ["-G", str(maxk)]
    if alone:
        opts += ["-c", "1"]     # a process for every execution
    if heap:
        opts += ["-H"]
    if reuse is not None:
        opts += ["-u", str(reuse)]
    if workdir:
        opts += ["-w"]
    if chunk is None:
        chunk = 40 if gc else 400
    stats = {"execs": 0, "mismatches": 0, "gcpoints": 0, "cases": 0, "timeouts": 0}
    out = []
    it = iter(cases)
    stop = False

    def chunks():
        base = 0
        while not stop:
            cs = []
            for c in it:
                cs.append(c)
                if len(cs) == chunk:
                    break
            if not cs:
                return
            yield base, cs
            base += len(cs)

    from collections import deque
    with ThreadPoolExecutor(NPROC) as ex:
        pend = deque()
        for base, cs in chunks():
            pend.append((base, len(cs), ex.submit(_run_chunk, exe, cs, opts, want_all)))
            if len(pend) >= NPROC * 2:
                b0, n, f = pend.popleft()
                res, st = f.result()
                for m in res:
                    m.idx += b0
                out += res
                stats["cases"] += n
                for k in st:
                    stats[k] += st[k]
                if limit_mism and (len(out) >= limit_mism or stats["timeouts"] >= 3):
                    stop = True
        while pend:
            b0, n, f = pend.popleft()
            res, st = f.result()
            for m in res:
                m.idx += b0
            out += res
            stats["cases"] += n
            for k in st:
                stats[k] += st[k]
    return out, stats


def show(progs, modes="VJCD", **kw):
    """Exploration helper: prints every result."""
    r, st = run([(p, None) for p in progs], modes=modes, want_all=True, **kw)
    by = {}
    for m in r:
        by.setdefault(m.idx, {}).setdefault(m.got, []).append(m.mode + ("" if m.gc == "-" else m.gc + str(m.k)))
    for i, p in enumerate(progs):
        print(repr(p))
        for g, ms in by[i].items():
            print("    %-12s %s" % (",".join(ms[:8]) + (".." if len(ms) > 8 else ""), g))
