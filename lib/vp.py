"""Check framework: reference values, exhaustive runs, violations, known findings, evidence."""
import hashlib, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pn

VERIF = pn.VERIF


# ---- reference values and their canonical rendering (what lib/pnrun.c dumps) ----
class Ref:
    """A mutable reference object: kind 'list' (v: list) or 'table' (v: list of [k, val])."""
    __slots__ = ("kind", "v")

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


class Raw(str):
    """Already rendered."""


class Bytes(str):
    pass


def L(*a):
    return Ref("list", list(a))


def T(d):
    return Ref("table", [[k, v] for k, v in (d.items() if isinstance(d, dict) else d)])


def quote(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    o = ['"']
    for c in b:
        if c in (34, 92):
            o.append("\\" + chr(c))
        elif c < 32 or c >= 127:
            o.append("\\x%02x" % c)
        else:
            o.append(chr(c))
    return "".join(o) + '"'


def fmt(v):
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, Bytes):
        return "b" + quote(str(v))
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return fdbl(v)
    if isinstance(v, (str, bytes)):
        return quote(v)
    if isinstance(v, (tuple, list)):
        return "(" + ",".join(fmt(x) for x in v) + ")"
    if isinstance(v, dict):
        return "{" + ",".join(sorted((fmt(k) + "=" + fmt(x) for k, x in v.items()),
                                     key=lambda s: s.encode())) + "}"
    if v.kind == "list":
        return fmt(v.v)
    return "{" + ",".join(sorted((fmt(k) + "=" + fmt(x) for k, x in v.v), key=lambda s: s.encode())) + "}"


def fdbl(v):
    if v != v:
        return "nand"
    return ("%.17g" % v) + "d"


def lit(v):
    """Source text of a literal."""
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v) if v != -2 ** 62 else "-4611686018427387903 - 1"
    if isinstance(v, float):
        s = "%.17g" % v
        return s if "." in s or "e" in s else s + ".0"
    if isinstance(v, str):
        return "'" + v + "'"
    if isinstance(v, (list, tuple)):
        return "(" + ", ".join(lit(x) for x in v) + ")"
    raise ValueError(v)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = pn.TIER
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.parts = {}
        self.viol = []
        self.known_hit = []
        self.nsup = 0
        self.known = load_known(pid)
        self.states = set()
        self.outcomes = set()
        out = os.path.join(VERIF, "out")
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(out, f))

    # -- bookkeeping of the explored model --
    def state(self, canon):
        self.states.add(hash(canon))

    def trans(self, n=1):
        self.cov["transitions"] += n

    def sample(self, s, n=3):
        s = {k: v[:600] + "..." if isinstance(v, str) and len(v) > 600 else v for k, v in s.items()} if isinstance(s, dict) else s
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(s)

    # -- execution --
    def run(self, part, cases, modes="VJ", confirm=True, **kw):
        """cases: (program, expected) pairs (expected None: all executions must agree)."""
        if len(self.viol) >= 5 and any(v.get("got") == "!TIMEOUT" for v in self.viol):
            return []       # enough is known, and every further execution may hang
        seen = [0]

        def tee():
            for c in cases:
                seen[0] += 1
                if seen[0] in (1, 17, 1009):
                    self.sample({"part": part, "program": c[0] if isinstance(c[0], str) else repr(c[0]),
                                 "expected": c[1]}, 12)
                if c[1] is not None:
                    self.outcomes.add(hash(c[1]))
                yield c
        kw.setdefault("limit_mism", 400)
        mm, st = pn.run(tee(), modes=modes, **kw)
        p = self.parts.setdefault(part, {"programs": 0, "executions": 0, "mismatches": 0})
        p["programs"] += st["cases"]
        p["executions"] += st["execs"]
        p["mismatches"] += len(mm)
        if st.get("gcpoints"):
            p["gc_schedules"] = p.get("gc_schedules", 0) + st["gcpoints"]
        self.cov["traces_validated_against_impl"] += st["execs"]
        for m in mm:
            self.report(part, m, confirm, kw)
        return mm

    def report(self, part, m, confirm, kw):
        if m.expected is None and m.got is not None and getattr(m, "mode", None) and False:
            return
        ident = (m.prog if isinstance(m.prog, str) else m.prog.decode("latin1"), m.mode)
        if confirm and len(self.viol) < 6:
            # replay before reporting, alone and with a longer time limit
            modes = m.mode if m.expected is not None else kw.get("_modes", "VJ")
            if m.expected is not None:
                r, _ = pn.run([(m.prog, m.expected)], modes=m.mode, seeds=(m.seed,),
                              gc=(m.gc if m.gc not in "-c" else ""), maxk=kw.get("maxk"),
                              workdir=kw.get("workdir", False), libs=kw.get("libs", False), cpu=max(20, 4 * kw.get("cpu", 5)))
                if not r:
                    self.parts[part]["unconfirmed"] = self.parts[part].get("unconfirmed", 0) + 1
                    return
        self.violation(part, {"program": ident[0], "mode": m.mode, "seed": m.seed, "gc": m.gc, "k": m.k,
                              "expected": m.expected, "got": m.got,
                              **{x: kw[x] for x in ("workdir", "libs", "reuse") if kw.get(x)}})

    def violation(self, part, rec):
        rec = dict(rec, property=self.pid, part=part)
        for k in self.known:
            if k["match"](rec):
                k["hits"] += 1
                self.nsup += 1
                return
        self.viol.append(rec)

    def part(self, name, **counts):
        p = self.parts.setdefault(name, {})
        for k, v in counts.items():
            p[k] = p.get(k, 0) + v

    def finish(self):
        cov = self.cov
        cov["states"] = cov["states"] + len(self.states) if self.states else max(cov["states"], len(self.outcomes))
        cov["distinct_outcomes"] = len(self.outcomes)
        cov["parts"] = self.parts
        code = 0
        for k in self.known:
            if k["hits"]:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.viol:
            code = 1
            self.viol.sort(key=lambda v: len(v.get("program") or ""))
            for i, v in enumerate(self.viol[:5]):
                path = os.path.join(VERIF, "out", "%s-%d.json" % (self.pid, i))
                json.dump(v, open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  part %s: expected %s, got %s" % (v.get("part"), str(v.get("expected"))[:300], str(v.get("got"))[:300]))
                print("  " + repr(v.get("program"))[:600] + " mode=%s seed=%s gc=%s@%s" % (
                    v.get("mode"), v.get("seed"), v.get("gc"), v.get("k")))
        ev = {"property": self.pid, "tier": "thorough" if not self.quick else "quick", "seed": pn.SEED,
              "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, tmp[:-4])
        print("%s %s: %d executions, %d states, %d transitions, %d violations, %.1fs" % (
            self.pid, self.tier, cov["traces_validated_against_impl"], cov["states"], cov["transitions"],
            len(self.viol), time.time() - self.t0))
        return code


def load_known(pid):
    """known-findings.txt: lines
       known: property=<id> {json: program, mode (chars), got} <what fails>
       fixed: property=<id> <commit> <what failed>      (suppress nothing)"""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return res
    for line in open(path):
        if not line.startswith("known: property=%s " % pid):
            continue
        rest = line.split(" ", 2)[2]
        rec, end = json.JSONDecoder().raw_decode(rest)
        what = rest[end:].strip()

        def match(v, rec=rec):
            return all((v.get(k) in x) if k == "mode" else v.get(k) == x for k, x in rec.items())
        res.append({"match": match, "what": what, "hits": 0, "rec": rec})
    return res
