"""C27: the command line does what it says."""
import itertools, os, shutil, subprocess, tempfile
from concurrent.futures import ProcessPoolExecutor
import pn

SHOW = "('<', argv join ('|'), '>') join print\n"
MAIN = SHOW + "('v', 1)\n"
FILES = {
    "a.pn": MAIN,
    "d/b.pn": SHOW + "'[b]' print\n2.5\n",
    "e f.pn": SHOW + "'[ef]' print\n",
    "-x.pn": SHOW + "'[-x]' print\n'y'\n",
    "empty.pn": "",
    "err.pn": "'[err]' print\n1 +\n",
    "m.pn": "'[m]' print\nLobby m = (x=N): ('[m', x, ']') join print.\n",
    "k.pn": "'[k]' print\nLobby k = (x=N, y=N): ('[k', x, y, ']') join print.\n",
    "p1/q.pn": "'[p1/q]' print\nLobby q = (x=N): ('[q1', x, ']') join print.\n",
    "w.pn": "'[w]' print\nLobby w = (x=N): ('[w', x, ']') join print.\n",
    "p1/w.pn": "'[p1/w]' print\n",
    "p2/m.pn": "'[p2/m]' print\n",
    "lib/potion/u.pn": "'[u]' print\nLobby u = (x=N): ('[u', x, ']') join print.\n",
    "u.pn": "'[no u]' print\n",
    "p1/u.pn": "'[p1/u]' print\n",
    "p2/q.pn": "'[p2/q]' print\nLobby q = (x=N): ('[q2', x, ']') join print.\n",
}
# what a program prints after its arguments, and what its value is printed as
PROGRAM = {"a.pn": ("", "(v, 1)"), "d/b.pn": ("[b]", "2.5"), "e f.pn": ("[ef]", ""), "-x.pn": ("[-x]", "y"), "a.pnb": ("", "(v, 1)")}
MODULE = {"m": lambda paths, a: "[m][m%s]" % (a or "0"), "k": lambda paths, a: "[k][k%s]" % (a.replace(",", "") if a else "00"),
          "w": lambda paths, a: "[w][w%s]" % (a or "0"), "u": lambda paths, a: "[u][u%s]" % (a or "0"),
          "q": lambda paths, a: "[%s/q][q%s%s]" % (paths[0], paths[0][1], a or "0") if paths and paths[0] in ("p1", "p2") else None}


def sh(b, cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise pn.CheckError("build of the command line failed: " + r.stdout.decode(errors="replace")[-2000:])


def build():
    """The command, with the two entries of the execution modes wrapped to see which one ran; and its readline."""
    b = pn.build()
    exe, rl = b + "/cli-%s" % pn.hashlib.sha256(open(pn.VERIF + "/lib/clishim.c", "rb").read()).hexdigest()[:8], b + "/cli-readline.so"
    if not os.path.exists(exe):
        t = exe + ".%d" % os.getpid()
        sh(b, ["clang"] + pn.cc_flags(b) + ["-rdynamic", "-I" + b + "/core", "-Wl,--wrap=potion_vm", "-Wl,--wrap=potion_jit_proto", pn.VERIF + "/lib/clishim.c",
                                            b + "/core/potion.o", b + "/lib/libpotion.a", "-o", t, "-lm", "-ldl", "-lpthread"])
        os.rename(t, exe)
    if not os.path.exists(rl):
        t = rl + ".%d" % os.getpid()
        sh(b, ["clang"] + pn.cc_flags(b) + ["-shared", "-fPIC", "-I" + b + "/core", b + "/lib/readline/readline.c", b + "/lib/readline/linenoise.c", "-o", t])
        os.rename(t, rl)
    return exe, rl


# ---------- running ----------

_W = None


class World:
    """A directory of its own with the files, put back to what it was when a run has changed it."""

    def __init__(self, exe, rl):
        self.exe, self.rl, self.pid = exe, rl, os.getpid()
        self.d = tempfile.mkdtemp(prefix="cli", dir=pn.scratch())
        self.fresh = False

    def reset(self, extra):
        if self.fresh and not extra:
            return
        shutil.rmtree(self.d + "/w", ignore_errors=True)
        os.makedirs(self.d + "/w/lib/potion")
        os.symlink(self.rl, self.d + "/w/lib/potion/readline.so")
        for n, t in list(FILES.items()) + list(extra.items()):
            p = os.path.join(self.d, "w", n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if t is None:
                os.mkdir(p)
            else:
                with open(p, "wb") as f:
                    f.write(t if isinstance(t, bytes) else t.encode())
        self.call(["-c", "a.pn"], b"")
        self.base = self.listing()
        self.fresh = not extra

    def listing(self):
        r = {}
        for p, _, fs in os.walk(self.d + "/w"):
            for f in fs:
                q = os.path.join(p, f)
                s = os.lstat(q)
                r[os.path.relpath(q, self.d + "/w")] = (s.st_size, s.st_mtime_ns, s.st_ino)
        return r

    def call(self, argv, stdin, more=None):
        """stdin None: an input that never ends."""
        try:
            os.unlink(self.d + "/mode")
        except FileNotFoundError:
            pass
        env = {"PATH": "/usr/bin:/bin", "CLI_MODE": self.d + "/mode", "TERM": "xterm"}
        if more is not None:
            env = dict(more, CLI_MODE=self.d + "/mode")
        with open(self.d + "/out", "w+b") as o, open(self.d + "/err", "w+b") as e:
            pr = subprocess.Popen([self.exe] + [os.fsencode(a) for a in argv], cwd=self.d + "/w", env=env, stdin=subprocess.PIPE if stdin is None or stdin else subprocess.DEVNULL, stdout=o, stderr=e)
            try:
                if stdin:
                    pr.communicate(stdin, timeout=10)
                else:
                    pr.wait(10)
                rc = pr.returncode
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
                rc = "timeout"
            if pr.stdin:
                try:
                    pr.stdin.close()
                except BrokenPipeError:
                    pass
            out, err = (open(self.d + "/" + x, "rb").read().decode(errors="replace") for x in ("out", "err"))
        mode = open(self.d + "/mode").read() if os.path.exists(self.d + "/mode") else ""
        return rc, out, err, mode


def observe(exe, rl, case):
    """Runs a case; returns (expected, got), both as text."""
    global _W
    if _W is None or _W.exe != exe or _W.pid != os.getpid():
        _W = World(exe, rl)
    argv, stdin, exp = case
    _W.reset(exp.get("extra", {}))
    steps = [(argv, stdin, exp)] + exp.get("then", [])
    E, G = [], []
    for argv, stdin, exp in steps:
        rc, out, err, mode = _W.call(argv, stdin, exp.get("env"))
        e, g = {}, {}
        g["end"] = "signal %d" % -rc if rc != "timeout" and rc < 0 else rc if rc == "timeout" else "ok"
        e["end"] = "ok"
        if exp.get("rc") is not None:
            e["rc"], g["rc"] = exp["rc"], rc
        if "out" in exp:
            e["out"], g["out"] = exp["out"], out
        for k, t in (("has", out), ("err", err)):
            if k in exp:
                e[k], g[k] = exp[k], exp[k] if exp[k] in t else t[-300:]
        if exp.get("hasnot"):
            e["not"], g["not"] = True, exp["hasnot"] not in out
        if exp.get("quiet"):
            e["stderr"], g["stderr"] = "", err
        if exp.get("mode") is not None:
            e["mode"], g["mode"] = exp["mode"], mode
        E.append(e)
        G.append(g)
    now = _W.listing()
    new = sorted(f for f in now if now[f] != _W.base.get(f) and f != "history.txt") + sorted("-" + f for f in _W.base if f not in now)
    E.append(sorted(exp0 for exp0 in case[2].get("files", [])))
    G.append(new)
    if new or case[2].get("extra"):
        _W.fresh = False
    return repr(E), repr(G)


def job(a):
    exe, rl, cases = a
    r, outs = [], set()
    for c in cases:
        e, g = observe(exe, rl, c)
        outs.add(hash(e))
        if e != g:
            r.append((c, e, g))
    return len(cases) + sum(len(c[2].get("then", [])) for c in cases), r, outs


# ---------- the model ----------

def predict(args):
    """What happens on these arguments."""
    mode, inspect, verbose, mods, paths, code, noisy = "J", False, False, [], [], None, ""
    i = 0
    while i < len(args):
        a = args[i]
        if a == "--":
            i += 1
            break
        if not a.startswith("-"):
            break
        if a in ("-B", "--bytecode"):
            mode = "V"
        elif a in ("-X", "--x86"):
            mode = "J"
        elif a in ("-I", "--inspect"):
            inspect = True
        elif a in ("-V", "--verbose"):
            verbose = True
        elif a in ("-c", "--compile", "--compile=bc"):
            mode = "C"
        elif a == "--check":
            mode = "K"
        elif a in ("-v", "--version"):
            return {"has": "potion 0.", "hasnot": "[", "mode": "", "quiet": not noisy}
        elif a in ("-h", "--help"):
            return {"has": "usage: potion", "hasnot": "|", "mode": "", "quiet": not noisy}
        elif a in ("-s", "--stats"):
            return {"has": "sizeof(PN=", "hasnot": "[", "mode": "", "quiet": not noisy}
        elif a == "-L":
            i += 1
            if i == len(args):
                return {"err": "-L missing directory", "out": "", "mode": ""}
            paths.append(args[i])
        elif a.startswith("-L"):
            paths.append(a[2:])
        elif a.startswith("-M"):
            mods.append(a[2:].split("=", 1) if "=" in a else [a[2:], ""])
        elif a == "-e":
            i += 1
            if i == len(args):
                return {"err": "Missing argument for -e", "out": "", "mode": ""}
            code = args[i]
        elif a.startswith("-e"):
            code = a[2:]
        else:
            noisy = a
        i += 1
    rest = args[i:]
    if code is None and not rest:
        if mode == "V" or inspect:
            return {"err": "no filename given", "out": "", "mode": ""}
        mods = [MODULE[m](paths, a) for m, a in mods]
        return None if None in mods else {"out": "".join(mods) + "\n"}
    mods = [MODULE[m](paths, a) for m, a in mods]
    if None in mods:
        return None         # a module that is not there
    pre = "".join(mods)
    if code is not None:
        argv = ["-e"] + rest
        if code not in CODE:
            return None
        text, val = CODE[code]
    else:
        argv = rest
        f = rest[0]
        if f == "err.pn":
            # the modules are part of the source text of a program
            r = {"out": "", "err": "Syntax error", "mode": ""}
            return r
        if f not in PROGRAM and f not in FILES and f not in ("d", "p1", "p2"):
            return {"out": "", "err": f + " does not exist", "mode": ""}
        if f in ("d", "p1", "p2"):
            return {"out": "", "err": "could not read", "mode": ""}
        text, val = PROGRAM[f]
    head = "<" + "|".join(argv) + ">"
    r = {"quiet": True, "mode": ""}
    if noisy:
        r.pop("quiet")
        r["err"] = "Unrecognized option: " + noisy
    if mode == "K":
        r["out"] = ""
    elif mode == "C":
        if code is not None:
            return None     # there is no file to name the result after
        r["out"] = "** compiled code saved to %sb\n** run it with: potion %sb\n" % (f, f)
        r["files"] = [f + "b"]
        if not verbose:
            # a module is part of the source of the program it is compiled with, a compiled one has none
            run = {"out": (pre if not f.endswith("b") else "") + "<%s>" % "|".join([f + "b", "z"]) + text, "quiet": True, "mode": "V"}
            r["then"] = [(["-B"] + sum((["-L", p] for p in paths), []) + ["--", f + "b", "z"], b"", run)]
    else:
        r["out"] = pre + head + text + (val + "\n" if inspect or verbose else "")
        r["mode"] = mode
    if verbose:
        r["has"] = r.pop("out")
        if mode != "C" and mode != "K" and pre:
            r.pop("has")    # the listing of the program comes between
            r["has"] = head + text + val + "\n"
    return r


CODE = {SHOW + "('v', 1)": ("", "(v, 1)"), SHOW + "'[e]' print": ("[e]", ""), SHOW + "7": ("", "7")}
E1, E2 = SHOW + "('v', 1)", SHOW + "7"
OPTS = [["-B"], ["--bytecode"], ["-X"], ["--x86"], ["-I"], ["--inspect"], ["-Mm"], ["-Mm=3"], ["-Mk=3,4"], ["-L", "p1"], ["-Lp1"], ["-Lp2"], ["-L", "p2"], ["-Mq"], ["-Mw"], ["-Mu=8"],
        ["-c"], ["--compile"], ["--compile=bc"], ["--check"], ["-e", E1], ["-e" + E2], ["-V"], ["--verbose"], ["-v"], ["--version"], ["-h"], ["--help"], ["-s"], ["--stats"], ["-q"], ["--"], ["-L"], ["-e"]]
FEW = [["-B"], ["-X"], ["-I"], ["-Mm"], ["-Mk=3,4"], ["-L", "p1"], ["-Lp2"], ["-Mq=5"], ["-Mw"], ["-c"], ["--check"], ["-e", E1], ["-e" + E2], ["--"], ["-V"]]
REST = [[], ["a.pn"], ["a.pn", "-B", "x"], ["d/b.pn"], ["a.pnb", "y"], ["missing.pn"], ["err.pn"], ["--", "-x.pn", "--"], ["e f.pn", "-I"]]


def gen_opts(opts, n, rest):
    for k in n:
        for o in itertools.product(opts, repeat=k):
            for r in rest:
                args = sum(o, []) + r
                p = predict(args)
                if p is not None:
                    yield args, b"", p


ARGS = ["x", "-B", "--", "-e", "", "a b", "é", "-v", "a.pn", "|"]


def gen_args(n):
    for k in range(n + 1):
        for a in itertools.product(ARGS, repeat=k):
            for pre in (["a.pn"], ["-I", "-B", "a.pn"], ["--", "a.pn"], ["a.pnb"], ["-B", "d/b.pn"]):
                yield pre + list(a), b"", predict(pre + list(a))
            for pre in (["-e", E1, "--"], ["-e" + E2, "-B", "--"]):
                yield pre + list(a), b"", predict(pre + list(a))
            if a and not a[0].startswith("-"):
                for pre in (["-e", E1], ["-I", "-e" + E2]):
                    yield pre + list(a), b"", predict(pre + list(a))
    for k in (10, 100, 1000, 5000):
        a = ["a.pn"] + ["w%d" % i for i in range(k)]
        yield a, b"", predict(a)
        yield ["-B"] + a, b"", predict(a and ["-B"] + a)
    for k in (255, 256, 4096, 100000):
        a = ["a.pn", "w" * k, "x"]
        yield a, b"", predict(a)


def gen_code():
    """-e with code of every sort, and files with the same text."""
    texts = [("1 + 2", "", "3"), ("'a' print", "a", ""), ("-5 + 1", "", "-4"), ("- 5", "", "-5"), ("-5 print", "-5", ""), ("x = 4\nx", "", "4"), ("'é'", "", "é"), ("(1, 2)", "", "(1, 2)"),
             ("2.5", "", "2.5"), ("nil", "", "nil"), ("true", "", "true"), ("'-B'", "", "-B"), ("'a\nb'", "", "a\nb"), ("1 # c", "", "1"), ("\n\n3\n\n", "", "3"), ("#!potion\n4", "", "4"),
             ("5 # " + "c" * 100000, "", "5"), ("'" + "s" * 100000 + "'", "", "s" * 100000), ("Z = 1\nZ", "", "1"), ("f = (x): x + 1.\nf (3)", "", "4"), ("argv length", "", None), ("argv (0)", "", "?"), ("argv (1)", "", "?1")]
    for t, out, val in texts:
        for m, o in (("V", ["-B"]), ("J", ["-X"]), ("J", [])):
            for ins in (0, 1):
                for a in ([], ["y"], ["y", "z"]):
                    for form in ("-e", "-e+", "f", "-c"):
                        name = "-e" if form[1:2] == "e" else "t.pn" if form == "f" else "t.pnb"
                        v = str(1 + len(a)) if val is None else name if val == "?" else (a[0] if a else "nil") if val == "?1" else val
                        exp = {"out": out + (v + "\n" if ins else ""), "quiet": True, "mode": m}
                        opt = o + ["-I"] * ins
                        if form == "-e":
                            yield opt + ["-e", t] + a, b"", exp
                            yield ["-e", t] + opt + a, b"", exp
                        elif form == "-e+":
                            yield opt + ["-e" + t] + a, b"", exp
                        elif form == "f":
                            yield opt + ["t.pn"] + a, b"", dict(exp, extra={"t.pn": t})
                        else:
                            yield ["-c", "t.pn"], b"", {"out": "** compiled code saved to t.pnb\n** run it with: potion t.pnb\n", "extra": {"t.pn": t}, "files": ["t.pnb"], "mode": "",
                                                        "then": [(opt + ["t.pnb"] + a, b"", exp)]}


def gen_files(quick):
    """Files of every size and name."""
    body = "'[%d]' print\n"
    for n in sorted(set(list(range(0, 40)) + [x + d for x in (64, 128, 255, 256, 512, 1024, 4096, 8192, 16384, 65536, 131072, 262144, 1048576, 4194304) for d in (-2, -1, 0, 1, 2)])):
        for mods in ([], ["-Mm"], ["-Mm=3", "-Mk=3,4"]):
            t = "1" if n else ""
            tail = "\n'[end]' print\n(5)"
            t = "#" + "c" * (n - 2 - len(tail)) + "\n" + tail if n > len(tail) + 2 else ("" if n == 0 else "#" + "c" * (n - 1))
            assert len(t) == n or n < 3, (n, len(t))
            pre = "".join({"-Mm": "[m][m0]", "-Mm=3": "[m][m3]", "-Mk=3,4": "[k][k34]"}[m] for m in mods)
            for m in ("V", "J"):
                yield mods + (["-B"] if m == "V" else []) + ["t.pn", "x"], b"", {"out": pre + ("[end]" if n > len(tail) + 2 else ""), "quiet": True, "mode": m, "extra": {"t.pn": t}}
    for n in [1, 2, 3, 8, 16, 100] + list(range(120, 132)) + list(range(235, 252)):
        for d in ("", "d/", "./", "d/../d/"):
            f = d + "n" * (n - 3 if n > 3 else n) + (".pn" if n > 3 else "")
            yield [f, "x"], b"", {"out": "<%s|x>" % f, "quiet": True, "mode": "J", "extra": {f: SHOW}}
            for o in (["-c"], ["--compile"], ["--compile=bc"]):
                yield o + [f], b"", {"out": "** compiled code saved to %sb\n** run it with: potion %sb\n" % (f, f), "quiet": True, "mode": "", "extra": {f: SHOW + "5\n"}, "files": [os.path.normpath(f + "b")],
                                     "then": [(["-I", f + "b", "y"], b"", {"out": "<%sb|y>5\n" % f, "mode": "J", "quiet": True})]}
    long = "/".join(["n" * 200] * 5) + "/t.pn"
    yield ["-c", long], b"", {"out": "** compiled code saved to %sb\n** run it with: potion %sb\n" % (long, long), "quiet": True, "mode": "", "extra": {long: MAIN}, "files": [long + "b"],
                              "then": [(["-I", long + "b"], b"", {"out": "<%sb>(v, 1)\n" % long, "mode": "J"})]}
    # the result is in the way
    yield ["-c", "t.pn"], b"", {"out": "** compiled code saved to t.pnb\n** run it with: potion t.pnb\n", "extra": {"t.pn": MAIN, "t.pnb": "x" * 5000}, "files": ["t.pnb"],
                                "then": [(["-I", "t.pnb"], b"", {"out": "<t.pnb>(v, 1)\n", "mode": "J"})]}
    yield ["-c", "t.pn"], b"", {"err": "could not open t.pnb", "out": "", "extra": {"t.pn": MAIN, "t.pnb": None}, "files": []}
    yield ["d"], b"", {"err": "could not", "out": "", "mode": ""}


BAD = ["1 +", "'abc", "(1, 2", "x = ", ")", ".", "a: b", "if (1): 2", "[a", "'a' 'b", "5 = ", "'[no]' print\n1 +", "\x01", "f = (x: 5.", "1 2 + ("]


def gen_bad():
    """A program that does not parse is not run, whatever is on its standard input."""
    for t in BAD:
        for o in ([], ["-B"], ["-X"], ["-I"], ["--check"], ["-c"], ["-Mm"]):
            for stdin in (b"", None, b"one line\nanother\n"):
                yield o + ["t.pn"], stdin, {"out": "", "err": "Syntax error", "rc": 1, "mode": "", "extra": {"t.pn": t}}
                if "-c" not in o:
                    yield o + ["-e", t], stdin, {"out": "", "err": "Syntax error", "rc": 1, "mode": ""}
    for t in ("1", MAIN, "", "# x", "'a' print", "f = (): 1 / 0.", "nil", "while (true): 1."):
        for o in (["--check"], ["-B", "--check"], ["--check", "-I"], ["--check", "-Mm"]):
            yield o + ["t.pn"], None, {"out": "", "mode": "", "quiet": True, "extra": {"t.pn": t}}
            yield o + ["-e", t], None, {"out": "", "mode": "", "quiet": True}


class Session:
    def __init__(self):
        self.g = {}


def say(v):
    return "=> %s\n" % v


LINES = [("1 + 2", lambda s: say(3)), ("x = 5", lambda s: say(5)), ("x", lambda s: say("nil")), ("", lambda s: ""), ("G = 6", lambda s: (s.g.update(G="6"), say(6))[1]), ("G", lambda s: say(s.g.get("G", "nil"))),
         ("nil", lambda s: say("nil")), ("'a' print", lambda s: "a" + say("")), ("Lobby f = (x): x + 1.", lambda s: (s.g.update(f=1), say("function f(x)"))[1]), ("K = class: 4.", lambda s: (s.g.update(K=1), s.g.pop("get", 0), say("K"))[2]),
         ("K get = (): 7.", lambda s: (s.g.update(get=1), say("function get()"))[1] if "K" in s.g else None), ("K () get", lambda s: say(7 if "get" in s.g else "nil")), ("f (2)", lambda s: say(3 if "f" in s.g else "nil")), ("G = 'z', 8", lambda s: (s.g.update(G="z"), say(8))[1]),
         ("(1, 'b')", lambda s: say("(1, b)")), ('"x\\ny"', lambda s: say("x\ny")), ("true", lambda s: say("true")), ("1 +", "bad")]


def session(ls):
    s, out = Session(), ""
    for t, f in ls:
        if f == "bad":
            return out, True
        o = f(s)
        if o is None:
            return None, False
        out += o
    return out + "\n", False


def gen_repl(n, quick):
    """A session at the prompt."""
    core = [l for l in LINES if l[0] != "K get = (): 7."]

    def case(ls, nl=True):
        o, bad = session(ls)
        exp = {"out": o, "rc": 1 if bad else 0}
        if bad:
            exp["err"] = "Syntax error"
        return [], ("\n".join(l for l, _ in ls) + ("\n" if nl else "")).encode() or b"\n", exp
    for k in range(1, n + 1):
        for ls in itertools.product(LINES, repeat=k):
            if session(ls)[0] is None:      # a method of a class that is not there
                continue
            yield case(ls)
            if ls[-1][0]:
                yield case(ls, False)
    for k in (10, 300) if quick else (10, 300, 1000, 3000):
        for j in range(len(core) - 1):
            yield case([core[j], core[0], ("'" + "s" * 500 + "'", lambda s: say("s" * 500))] * k + [core[5]])
    for k in list(range(1, 20)) + [100, 1000, 2047, 2048, 4000, 4085]:
        yield case([("'" + "s" * k + "'", lambda s: say("s" * k)), core[0]])


# ---------- the check ----------

def run(c, part, gen):
    exe, rl = build()
    p = {"cases": 0, "executions": 0, "mismatches": 0}
    with ProcessPoolExecutor(8) as ex:
        fs, batch = [], []
        for case in gen:
            p["cases"] += 1
            c.states.add(hash((part, repr(case[:2]), repr(case[2].get("extra"))[:200])))
            c.trans(1 + len(case[2].get("then", [])))
            if p["cases"] in (3, 77):
                c.sample({"part": part, "program": repr(case[0])[:300], "expected": repr(case[2])[:300]}, 12)
            batch.append(case)
            if len(batch) == 40:
                fs.append(ex.submit(job, (exe, rl, batch)))
                batch = []
        fs.append(ex.submit(job, (exe, rl, batch)))
        for f in fs:
            n, bad, outs = f.result()
            p["executions"] += n
            c.outcomes |= outs
            for case, e, g in bad:
                if len(c.viol) < 6:         # again, alone
                    e, g = observe(exe, rl, case)
                    if e == g:
                        p["unconfirmed"] = p.get("unconfirmed", 0) + 1
                        continue
                p["mismatches"] += 1
                c.violation(part, {"program": repr(case[0])[:3000], "stdin": repr(case[1])[:3000], "expected": e[:3000], "got": g[:3000], "harness": 1, "case": repr(case) if len(repr(case)) < 200000 else ""})
    c.parts[part] = p
    c.cov["traces_validated_against_impl"] += p["executions"]


def explore(c):
    q = c.quick
    run(c, "options", gen_opts(OPTS, (0, 1, 2), REST[:4] if q else REST))
    run(c, "options and files", gen_opts(OPTS, (1,), REST))
    run(c, "more options", gen_opts(FEW, (3,), [["a.pn", "x"]] if q else REST[:6]))
    run(c, "arguments", gen_args(2 if q else 4))
    run(c, "code", gen_code())
    run(c, "files", gen_files(q))
    run(c, "programs that do not parse", gen_bad())
    run(c, "at the prompt", gen_repl(2 if q else 3, q))


def replay(v):
    import ast
    e, g = observe(*build(), ast.literal_eval(v["case"]))
    print("expected %s\ngot      %s" % (e, g))
    return int(e != g)
