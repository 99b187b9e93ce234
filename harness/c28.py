"""C28: auto-whitelisting pulls the score towards the sender's average."""
from symx import api as sx
from harness import common
from collections import defaultdict
import re
import oa.plugins.awl
try:
    from sqlalchemy import create_engine
    from sqlalchemy.pool import StaticPool
except ImportError:
    create_engine = None

BOUNDS = ("every history of 3 messages of 7 kinds (same sender and network, other host of the network, other network, private origin, no address, "
          "other sender, signed) with scores that are any multiple of 1/16 in -20..20 and factors 0, 0.5 and 1, over a model of the SQLAlchemy session and of the MySQL "
          "connection; the same histories with 3 scores over a real SQLite database (histories of 2)")
OUTSIDE = "concurrent checks; connection failures; several users; the arithmetic of floats (reals in the solver, compared up to 1e-6)"

KINDS = {"base": ("a@x.com", ["8.8.1.1"], ""), "host": ("a@x.com", ["8.8.9.9"], ""), "network": ("a@x.com", ["8.9.1.1"], ""),
         "private": ("a@x.com", ["8.8.1.1", "10.0.0.1"], ""), "none": ("a@x.com", [], ""), "other": ("b@x.com", ["8.8.1.1"], ""),
         "signed": ("a@x.com", ["8.8.1.1"], "x.com")}
NAMES = sorted(KINDS)
COLS = ("username", "email", "ip", "count", "totscore", "signedby")


def raw(kind):
    addr, ips, signed = KINDS[kind]
    res = "".join("Received: from h.net (h.net [%s]) by mx.net with SMTP id 1; Mon, 1 Feb 2016 10:00:00 +0000\n" % ip for ip in ips)
    if signed:
        res += "DKIM-Signature: v=1; a=rsa-sha256; d=%s; s=k\n" % signed
    return res + "From: A <%s>\nSubject: s\n\nbody\n" % addr


def key(kind):
    addr, ips, signed = KINDS[kind]
    pub = [ip for ip in ips if not ip.startswith("10.")]
    return addr, (".".join(pub[-1].split(".")[:2]) if pub else "none"), signed


# a model of the SQLAlchemy session
class Col(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return (self.name, other)
    __hash__ = None


class Entry(object):
    def __init__(self, **kw):
        self._row = None
        self.__dict__.update(kw)


for _c in COLS:
    setattr(Entry, _c, Col(_c))


class Query(object):
    def __init__(self, rows):
        self.rows = rows

    def filter(self, *preds):
        return Query([r for r in self.rows if all(r[n] == v for n, v in preds)])

    def first(self):
        if not self.rows:
            return None
        res = Entry(**self.rows[0])
        res._row = self.rows[0]
        return res


class Session(object):
    def __init__(self, rows):
        self.rows = rows

    def query(self, cls):
        return Query(self.rows)

    def merge(self, e):
        row = e._row
        if row is None:
            match = [r for r in self.rows if all(r[c] == getattr(e, c) for c in ("username", "email", "signedby", "ip"))]
            row = match[0] if match else {}
            if not match:
                self.rows.append(row)
        for c in COLS:
            row[c] = getattr(e, c)

    add = merge

    def commit(self):
        pass
    close = flush = rollback = commit


# a model of the MySQL connection
class Cursor(object):
    def __init__(self, rows):
        self.rows, self.result, self.rowcount = rows, [], 0

    def execute(self, sql, args=()):
        args = list(args) if isinstance(args, (tuple, list)) else [args]
        sql = " ".join(sql.split())
        m = re.match(r"INSERT INTO awl( \(([^)]*)\))? VALUES", sql)
        if m:
            cols = [c.strip() for c in m.group(2).split(",")] if m.group(2) else list(COLS)
            self.rows.append(dict(zip(cols, args)))
            self.rowcount = 1
            return 1
        head, _, where = sql.partition(" WHERE ")
        conds = [c.split("=")[0].strip() for c in where.split(" AND ")] if where else []
        sets = []
        m = re.match(r"UPDATE awl SET (.*)$", head)
        if m:
            sets = [c.split("=")[0].strip() for c in m.group(1).split(",")]
        vals = dict(zip(conds, args[len(sets):]))
        found = [r for r in self.rows if all(r[c] == v for c, v in vals.items())]
        self.rowcount = len(found)
        if m:
            for r in found:
                r.update(zip(sets, args))
        else:
            cols = re.match(r"SELECT (.*) FROM awl$", head).group(1)
            cols = list(COLS) if cols == "*" else [c.strip() for c in cols.split(",")]
            self.result = [tuple(r[c] for c in cols) for r in found]
        return self.rowcount

    def fetchall(self):
        res, self.result = self.result, []
        return res

    def fetchone(self):
        return self.result.pop(0) if self.result else None

    def close(self):
        pass


class Conn(object):
    def __init__(self, rows):
        self.rows = rows

    def cursor(self):
        return Cursor(self.rows)

    def commit(self):
        pass
    close = rollback = commit


def start(kind, factor):
    """(the rule set, a function that returns the stored rows)"""
    awl, rows = oa.plugins.awl, []
    p = common.parser()
    p.ctxt.load_plugin("oa.plugins.awl.AutoWhiteListPlugin")
    rs = common.load("auto_whitelist_factor %s\nheader AWL eval:check_from_in_auto_whitelist()\n" % factor, p).get_ruleset()
    cls = awl.AutoWhiteListPlugin
    if kind == "sqlite":
        engine = create_engine("sqlite://", poolclass=StaticPool, connect_args={"check_same_thread": False})
        rawc = engine.raw_connection().connection
        rawc.execute("CREATE TABLE awl (username varchar(255) NOT NULL DEFAULT '', email varchar(200) NOT NULL DEFAULT '', ip varchar(40) NOT NULL DEFAULT '', "
                     "count int NOT NULL DEFAULT 0, totscore float NOT NULL DEFAULT 0, signedby varchar(255) NOT NULL DEFAULT '', "
                     "PRIMARY KEY (username, email, signedby, ip))")
        rawc.commit()
        p.ctxt.plugins["AutoWhiteListPlugin"]["engine"] = engine
        return rs, lambda: [dict(zip(COLS, r)) for r in rawc.execute("SELECT %s FROM awl" % ",".join(COLS)).fetchall()]
    if kind == "mysql":
        class Driver(object):
            Error = DatabaseError = RuntimeError

            @staticmethod
            def connect(**kw):
                return Conn(rows)
        sx.patch(awl, "has_sqlalchemy", False)
        sx.patch(awl, "pymysql", Driver)
        p.ctxt.plugins["AutoWhiteListPlugin"]["engine"] = defaultdict(int, hostname="h", user="u", password="p", db_name="d", driver="mysql")
    else:
        sx.patch(awl, "AWL", Entry)
        sx.patch(cls, "get_session", lambda self: Session(rows))
        p.ctxt.plugins["AutoWhiteListPlugin"]["engine"] = object()
    return rs, lambda: rows


def near(a, b):
    d = a - b
    return sx.and_(d < 1e-6, d > -1e-6)


def play(kind, first, factor, n, score):
    rs, rows = start(kind, factor)
    model = {}
    for i in range(n):
        k = first if i == 0 else sx.choice("kind%d" % i, NAMES)
        s = score(i)
        msg = common.message(rs.ctxt, raw(k))
        msg.score = s
        sx.check(not rs.ctxt.eval_rules["check_from_in_auto_whitelist"](msg), "the rule itself does not match")
        rec = key(k)
        if rec not in model and (rec[0], "none", rec[2]) in model:
            model[rec] = model.pop((rec[0], "none", rec[2]))
        count, total = model.get(rec, (0, 0))
        sx.check(near(msg.score, s + (total / count - s) * factor if count else s), "the adjusted score", i, k, msg.score)
        model[rec] = (count + 1, total + s)
        got = {(r["email"], r["ip"], r["signedby"]): (r["count"], r["totscore"]) for r in rows()}
        sx.check(len(rows()) == len(got) and set(got) == set(model), "the recorded senders", i, sorted(got), sorted(model))
        for r, (c, t) in model.items():
            sx.check(sx.and_(got[r][0] == c, near(got[r][1], t)), "the record of a sender", i, r, got[r])


@sx.obligation(params=lambda t: [{"kind": k, "first": f, "factor": x} for k in ("session", "mysql") for f in NAMES for x in (0.5, 0, 1)
                                 if x == 0.5 or f == "base"], covers=())
def records(kind, first, factor):
    play(kind, first, factor, 3 if factor == 0.5 else 2, lambda i: sx.real("score%d" % i, -20, 20, 16))


@sx.obligation(params=[{"first": f} for f in NAMES], covers=())
def database(first):
    if create_engine is None or not oa.plugins.awl.has_sqlalchemy:
        sx.check(create_engine is None, "SQLAlchemy is used when it is installed")
        return
    play("sqlite", first, 0.5, 2, lambda i: sx.choice("score%d" % i, [0.0, 5.5, -3.0]))
