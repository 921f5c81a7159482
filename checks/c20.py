"""C20: Database gives programs the rows SQLite holds."""
import itertools
from vp import Raw, Ref, fmt

ERR = Raw("<error>")
DB = Raw("<class \"Database\">")
ERRC = Raw("<class \"Error\">")
PRE = "PRAGMA synchronous=OFF; PRAGMA journal_mode=MEMORY"


def q(v):
    """a potion string literal"""
    return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Prog:
    """the reference: files hold tables of (k, v) rows in rowid order; a handle has a path or is closed"""

    def __init__(self, c):
        self.c, self.files, self.h, self.src, self.exp = c, {}, {}, ["r = ()"], []

    def obs(self, e, v):
        self.src.append("r append(|%s.)" % e)
        self.exp.append(v)

    def op(self, o):
        self.c.trans()
        k, h, a = o[0], o[1], o[2:]
        if k == "new":
            self.src.append("%s = Database('%s')" % (h, a[0]))
            if "/" in a[0]:
                self.obs("%s kind" % h, ERRC)
                self.h.pop(h, None)
                return True
            self.obs("%s kind" % h, DB)
            self.h[h] = a[0]
            self.files.setdefault(a[0], None)
            if a[0] == ":memory:":
                self.files[a[0]] = None
            self.src.append("%s exec('%s')" % (h, PRE))
            return True
        if h not in self.h:
            return False
        p = self.h[h]
        rows = self.files.get(p) if p else None
        if k == "create":
            if p and rows is None:
                self.files[p] = [[str(i + 1), v] for i, v in enumerate(a)]
                sql = "CREATE TABLE t (k INT, v TEXT);" + "".join("INSERT INTO t VALUES (%d, %s);" % (i + 1, "NULL" if v is None else "'%s'" % v.replace("'", "''")) for i, v in enumerate(a))
                self.obs("%s exec(%s) kind" % (h, q(sql)), DB)
            else:
                self.obs("%s exec('CREATE TABLE t (k INT, v TEXT)') kind" % h, ERRC)
        elif k == "insert":
            kk, v = a
            sql = "INSERT INTO t VALUES (%s, %s)" % (kk, "NULL" if v is None else "'%s'" % v.replace("'", "''"))
            self.obs("%s exec(%s) kind" % (h, q(sql)), ERRC if rows is None else DB)
            if rows is not None:
                rows.append([str(kk), v])
        elif k == "delete":
            self.obs("%s exec('DELETE FROM t WHERE k = %d') kind" % (h, a[0]), ERRC if rows is None else DB)
            if rows is not None:
                rows[:] = [x for x in rows if x[0] != str(a[0])]
        elif k == "update":
            self.obs("%s exec(%s) kind" % (h, q("UPDATE t SET v = '%s' WHERE k = %d" % (a[1], a[0]))), ERRC if rows is None else DB)
            if rows is not None:
                for x in rows:
                    if x[0] == str(a[0]):
                        x[1] = a[1]
        elif k == "each":
            cols = a[0]
            n = len(self.src)
            self.src.append("s%d = ()\nz = %s exec 'SELECT %s FROM t' (row): s%d append(row)." % (n, h, cols, n))
            self.obs("(z kind, s%d)" % n, [ERRC, []] if rows is None else [DB, self.sel(rows, cols)])
        elif k == "nested":     # a query for every row of a query
            n = len(self.src)
            self.src.append("s%d = ()\nz = %s exec 'SELECT * FROM t' (row):\n  s%d append(row('v'))\n  %s exec 'SELECT k FROM t' (x): s%d append(x('k')).\n." % (n, h, n, h, n))
            self.obs("(z kind, s%d)" % n, [ERRC, []] if rows is None else [DB, [y for x in rows for y in [x[1]] + [z[0] for z in rows]]])
        elif k == "get":
            cols = a[0]
            self.obs("%s gettable('SELECT %s FROM t')%s" % (h, cols, " kind" if p and rows is None else ""),
                     None if not p else ERRC if rows is None else self.sel(rows, cols))
        elif k == "close":
            self.obs("%s close kind" % h, DB)
            if p == ":memory:":
                self.files[p] = None
            self.h[h] = None
        elif k == "open":
            if p == ":memory:":
                return False
            self.files.setdefault(a[0], None)
            self.obs("%s open('%s') kind" % (h, a[0]), DB)
            self.src.append("%s exec('%s')" % (h, PRE))
            self.h[h] = a[0]
        elif k == "open?":
            self.obs("%s open?" % h, p is not None)
        elif k == "bad":
            self.obs("%s exec('SELEKT 1') kind" % h, ERRC)
        elif k == "many":       # several statements, one text
            self.obs("%s exec(%s) kind" % (h, q("INSERT INTO t VALUES (7, 'm'); UPDATE t SET v = 'n' WHERE k = 7; INSERT INTO t VALUES (8, 'o')")), ERRC if rows is None else DB)
            if rows is not None:
                rows.append(["7", "m"])
                for x in rows:
                    if x[0] == "7":
                        x[1] = "n"
                rows.append(["8", "o"])
        elif k == "half":       # the first statement stays done when the second fails
            self.obs("%s exec(%s) kind" % (h, q("INSERT INTO t VALUES (9, 'p'); SELEKT")), ERRC)
            if rows is not None:
                rows.append(["9", "p"])
        elif k == "rollback":
            self.obs("%s exec(%s) kind" % (h, q("BEGIN; DELETE FROM t; ROLLBACK")), ERRC if rows is None else DB)
            if p and rows is None:
                return False    # the transaction stays open
        self.c.state((tuple(sorted((n, None if f is None else tuple(map(tuple, f))) for n, f in self.files.items())), tuple(sorted(self.h.items(), key=str))))
        return True

    def sel(self, rows, cols):
        if cols == "*":
            return [Raw(fmt({"k": x[0], "v": x[1]})) for x in rows]
        if cols == "count(*) n":
            return [Raw(fmt({"n": str(len(rows))}))]
        if cols == "v a, v b, k c, k d, 1 e":
            return [Raw(fmt({"a": x[1], "b": x[1], "c": x[0], "d": x[0], "e": "1"})) for x in rows]
        return [Raw(fmt({"v": x[1]})) for x in rows]

    def case(self):
        return "\n".join(self.src) + "\nr", fmt(self.exp) + "".join("&%s=-" % n for n in sorted(self.files) if n[0] != ":")


OPS = [("create", "d", "one", None), ("insert", "d", 3, "x"), ("delete", "d", 1), ("update", "d", 2, "u"), ("each", "d", "*"), ("get", "d", "*"), ("close", "d"), ("open", "d", "db"), ("open?", "d")]
MORE = OPS + [("create", "d"), ("create", "d", "it's", "", "é"), ("insert", "d", 2, None), ("each", "d", "v"), ("each", "d", "count(*) n"), ("get", "d", "v"), ("get", "d", "v a, v b, k c, k d, 1 e"), ("nested", "d"), ("bad", "d"), ("many", "d"), ("half", "d"), ("rollback", "d"), ("open", "d", "db2"), ("new", "d", "db"), ("new", "d", "no/db")]


def seqs(c, depth, ops, first):
    for seq in itertools.product(ops, repeat=depth):
        p = Prog(c)
        if all(p.op(o) for o in first) and all(p.op(o) for o in seq):
            yield p.case()


def two(c, depth):
    ops = [x for h in "de" for x in [("insert", h, 3, "x"), ("delete", h, 1), ("each", h, "*"), ("get", h, "*"), ("close", h), ("open", h, "db")]]
    for other in ("db", "db2"):
        for seq in itertools.product(ops, repeat=depth):
            p = Prog(c)
            if p.op(("new", "d", "db")) and p.op(("create", "d", "one", "two")) and p.op(("new", "e", other)) and all(p.op(o) for o in seq):
                yield p.case()


def sizes(c, ns):
    for n in ns:
        p = Prog(c)
        p.op(("new", "d", ":memory:"))
        p.op(("create", "d"))
        p.src.append("%d times (i): d exec(|('INSERT INTO t VALUES (', i string, ', \\'v', i string, '\\')') join.)." % n if 0 else
                     "%d times (i): a = ('INSERT INTO t VALUES (', i, ', ', i, ')') join, d exec(a)." % n)
        p.files[":memory:"] = [[str(i), str(i)] for i in range(n)]
        p.op(("each", "d", "*"))
        p.op(("get", "d", "v"))
        p.op(("each", "d", "count(*) n"))
        yield p.case()
    for n in (0, 1, 10, 300, 5000):
        p = Prog(c)
        p.op(("new", "d", ":memory:"))
        p.op(("create", "d", "s" * n, None, "é€" * (n // 4)))
        p.op(("each", "d", "*"))
        p.op(("get", "d", "v a, v b, k c, k d, 1 e"))
        yield p.case()


def wide(c, ns):
    """rows of n columns"""
    for n in ns:
        for rows in (0, 1, 2, 7):
            for vals in (lambda r, i: str(r * 100 + i), lambda r, i: None if (r + i) % 3 == 0 else "", lambda r, i: "c%d" % i if i else "é" * (r + 1)):
                lit = lambda v: "NULL" if v is None else "'%s'" % v
                sql = "CREATE TABLE w (%s);" % ", ".join("c%d" % i for i in range(n))
                for r in range(rows):
                    sql += "INSERT INTO w VALUES (%s);" % ", ".join(lit(vals(r, i)) for i in range(n))
                exp = [[(i, vals(r, i)) for i in range(n)] for r in range(rows)]
                c.trans(4)
                c.state((n, rows, str(exp)))
                pick = lambda row: "(" + ", ".join("%s('c%d')" % (row, i) for i in range(n)) + ", %s length)" % row
                want = fmt(tuple(tuple(v for _, v in r) + (n,) for r in exp))
                yield "d = Database(':memory:')\nd exec(%s)\nr = ()\nd exec 'SELECT * FROM w' (x): r append(%s).\nr" % (q(sql), pick("x")), want
                yield "d = Database(':memory:')\nd exec(%s)\nd gettable('SELECT * FROM w') map((x): %s.)" % (q(sql), pick("x")), want


def locks(c, depth, ops):
    """two connections to one file, transactions: what one has begun is not seen by the other before its end,
    another writer is refused meanwhile, and closing a connection ends its transaction"""
    for seq in itertools.product(ops, repeat=depth):
        src = ["r = ()", "d = Database('db')", "d exec(%s)" % q(PRE), "d exec(\"CREATE TABLE t (k INT, v TEXT); INSERT INTO t VALUES (1, 'a')\")", "e = Database('db')", "e exec(%s)" % q(PRE)]
        exp = []
        rows, pend, opened, ok = ["1"], {}, {"d": True, "e": True}, True     # pend: the rows of a writing transaction
        n = 1
        for o, h in seq:
            other = "e" if h == "d" else "d"
            busy = other in pend
            if o == "close":
                if not opened[h]:
                    ok = False
                    break
                src.append("r append(|%s close kind.)" % h)
                exp.append(DB)
                pend.pop(h, None)
                opened[h] = False
                continue
            if o == "open":
                src.append("r append(|%s open('db') kind.)" % h)
                exp.append(DB)
                src.append("%s exec(%s)" % (h, q(PRE)))
                pend.pop(h, None)
                opened[h] = True
                continue
            if not opened[h]:
                ok = False
                break
            n += 1
            if o == "begin":
                src.append("r append(|%s exec('BEGIN IMMEDIATE') kind.)" % h)
                if busy or h in pend:
                    exp.append(ERRC)
                else:
                    exp.append(DB)
                    pend[h] = list(rows)
            elif o == "insert":
                src.append("r append(|%s exec('INSERT INTO t VALUES (%d, 0)') kind.)" % (h, n))
                exp.append(ERRC if busy else DB)
                if not busy:
                    (pend[h] if h in pend else rows).append(str(n))
            elif o in ("commit", "rollback"):
                src.append("r append(|%s exec('%s') kind.)" % (h, o.upper()))
                exp.append(DB if h in pend else ERRC)
                if h in pend:
                    x = pend.pop(h)
                    if o == "commit":
                        rows = x
            elif o == "each":
                src.append("s%d = ()\nz = %s exec 'SELECT k FROM t' (row): s%d append(row('k')).\nr append(|(z kind, s%d).)" % (n, h, n, n))
                exp.append([DB, list(pend.get(h, rows))])
            elif o == "get":
                src.append("r append(|%s gettable('SELECT k FROM t') map((x): x('k').).)" % h)
                exp.append(list(pend.get(h, rows)))
            c.trans()
            c.state((tuple(rows), tuple(sorted((a, tuple(b)) for a, b in pend.items())), tuple(opened.items())))
        if ok:
            yield "\n".join(src) + "\nr", fmt(exp) + "&db=-"


def explore(c):
    quick = c.quick
    w = dict(workdir=True, libs=True)
    new, mem, full = ("new", "d", "db"), ("new", "d", ":memory:"), ("create", "d", "one", None, "it's é")
    c.run("file", seqs(c, 3 if quick else 4, OPS, [new]), modes="V", **w)
    c.run("file, every operation", seqs(c, 2 if quick else 3, MORE, [new, full]), modes="VJ" if quick else "V", **w)
    c.run("memory", seqs(c, 2 if quick else 3, [o for o in MORE if o[0] not in ("open",)], [mem, full]), modes="VJCD" if quick else "VJ", **w)
    c.run("two connections", two(c, 3 if quick else 4), modes="V", **w)
    c.run("sizes", sizes(c, list(range(0, 12)) + [60, 300] if quick else list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 500, 1000]), modes="VJ", cpu=20, **w)
    c.run("columns", wide(c, list(range(1, 12)) + [30, 60] if quick else list(range(1, 130)) + [200, 240]), modes="VJ", cpu=20, **w)
    c.run("transactions", locks(c, 3 if quick else 4, [(o, h) for h in "de" for o in ("begin", "insert", "commit", "rollback", "each", "close", "open")] + [("get", "e")]), modes="V", **w)
    reads = [("each", "d", "*"), ("each", "d", "v"), ("get", "d", "*"), ("get", "d", "v a, v b, k c, k d, 1 e"), ("nested", "d"), ("insert", "d", 3, "x"), ("bad", "d")]
    c.run("collections", seqs(c, 1, reads, [mem, full]), modes="VJ", gc="aAnM", chunk=2, **w)
    c.run("collections, sequences", seqs(c, 2, reads, [mem, full]), modes="V" if quick else "VJ", gc="aA" if quick else "aAnM", chunk=4, **w)
