"""C26: learning and forgetting keep the Bayes counters consistent."""
from symx import api as sx
from harness import common
import time
import oa.plugins.bayes
import oa.db.bayes.mysql
try:
    import oa.db.bayes.sqlalchemy
    from sqlalchemy import create_engine
    from sqlalchemy.pool import StaticPool
except ImportError:
    create_engine = None

BOUNDS = ("every history of 3 (thorough: 4) operations (learn as spam, learn as ham, forget) over two messages that share words; both stores "
          "(SQLAlchemy and MySQL), each over an SQLite database in memory; empty and filled databases")
OUTSIDE = "concurrent writers; damaged databases; the SQL dialect of MySQL itself"

RAW = {"a": "Message-Id: <a@x>\nSubject: hello\n\ncheap pills everywhere\n",
       "b": "Message-Id: <b@x>\nSubject: hello\n\ncheap lunch meeting\nsee www.a.com x@y.com\n"}


class Cursor(object):
    """A MySQL cursor over SQLite."""

    def __init__(self, cur):
        self.cur = cur

    def execute(self, sql, args=()):
        self.cur.execute(sql.replace("%s", "?"), args)

    def __getattr__(self, name):
        return getattr(self.cur, name)


class Conn(object):
    def __init__(self, conn):
        self.conn = conn

    def cursor(self):
        return Cursor(self.conn.cursor())

    def commit(self):
        self.conn.commit()

    def close(self):
        self.conn.rollback()


TABLES = ("CREATE TABLE bayes_seen (id int NOT NULL default 0, msgid varchar(200) NOT NULL, flag char(1) NOT NULL, PRIMARY KEY (id, msgid))",
          "CREATE TABLE bayes_token (id int NOT NULL default 0, token char(5) NOT NULL, spam_count int NOT NULL default 0, "
          "ham_count int NOT NULL default 0, atime int NOT NULL default 0, PRIMARY KEY (id, token))",
          "CREATE TABLE bayes_vars (id integer PRIMARY KEY, username varchar(200) NOT NULL default '', spam_count int NOT NULL default 0, "
          "ham_count int NOT NULL default 0, token_count int NOT NULL default 0, last_expire int NOT NULL default 0, "
          "last_atime_delta int NOT NULL default 0, last_expire_reduce int NOT NULL default 0, "
          "oldest_token_age int NOT NULL default 2147483647, newest_token_age int NOT NULL default 0)")


def database(kind):
    """(the raw connection, the engine to hand to the plugin)"""
    if kind == "mysql":
        import sqlite3
        raw = sqlite3.connect(":memory:")
        for t in TABLES:
            raw.execute(t)
        raw.commit()
        return raw, {"hostname": "h", "user": "u", "password": "p", "db_name": "d"}
    engine = create_engine("sqlite://", poolclass=StaticPool, connect_args={"check_same_thread": False})
    raw = engine.raw_connection().connection
    for t in TABLES:
        raw.execute(t)
    raw.commit()
    return raw, engine


def rows(raw, sql, args=()):
    res = [tuple(r) for r in raw.execute(sql, args).fetchall()]
    return res


def fill(raw, spam, ham):
    raw.execute("INSERT INTO bayes_vars (username, spam_count, ham_count) VALUES ('', ?, ?)", (spam, ham))
    raw.commit()


def start(kind):
    raw, engine = database(kind)
    if kind == "mysql":
        sx.patch(oa.plugins.bayes, "Store", oa.db.bayes.mysql.Store)
        sx.patch(oa.db.bayes.mysql.pymysql, "connect", lambda **kw: Conn(raw))
    p = common.parser()
    p.ctxt.load_plugin("oa.plugins.bayes.BayesPlugin")
    sx.patch(oa.plugins.bayes.BayesPlugin, "get_engine", lambda self: engine)
    rs = common.load("use_bayes 1\n", p).get_ruleset()
    plugin = p.ctxt.plugins["BayesPlugin"]
    plugin["engine"] = engine
    return raw, rs, plugin


def counts(raw):
    seen = dict(rows(raw, "SELECT msgid, flag FROM bayes_seen"))
    v = rows(raw, "SELECT spam_count, ham_count FROM bayes_vars")
    tokens = {bytes(t) if not isinstance(t, str) else t.encode("latin-1"): (s, h) for t, s, h in
              rows(raw, "SELECT token, spam_count, ham_count FROM bayes_token")}
    return seen, v, {k: c for k, c in tokens.items() if c != (0, 0)}


@sx.obligation(params=lambda t: [{"kind": k, "first": f, "filled": l} for k in ("sqlalchemy", "mysql") for f in ("spam", "ham", "forget")
                                 for l in (False, True)], covers=("relearn", "twice", "forget"))
def histories(kind, first, filled):
    raw, rs, plugin = start(kind)
    n = 3 if sx.TIER == "quick" else 4
    base = (5, 7) if filled else (0, 0)
    if filled:
        fill(raw, *base)
    state, tokens = {}, {}
    for i in range(n):
        m = "a" if i == 0 else sx.choice("m%d" % i, ["a", "b"])
        op = first if i == 0 else sx.choice("op%d" % i, ["spam", "ham", "forget"])
        msg = common.message(rs.ctxt, RAW[m])
        if op == "forget":
            plugin.forget_message(msg, msg.msgid)
            sx.cover("forget")
            state.pop(m, None)
        else:
            rs.ctxt.hook_report(msg, op == "spam")
            if state.get(m) == op:
                sx.cover("twice")
            elif m in state:
                sx.cover("relearn")
            state[m] = op
        if m not in tokens:
            tokens[m] = set(t for t, _ in plugin.tokenise(msg))
            sx.check(len(tokens[m]) >= 3, "the message has tokens", tokens[m])
        seen, v, toks = counts(raw)
        sx.check(seen == {"<%s@x>" % k: s[0] for k, s in state.items()} or seen == {"%s@x" % k: s[0] for k, s in state.items()},
                 "what was learned", seen, state)
        want = (base[0] + list(state.values()).count("spam"), base[1] + list(state.values()).count("ham"))
        sx.check((v[0] if v else (0, 0)) == want and len(v) <= 1, "the number of messages", v, want)
        wt = {}
        for k, s in state.items():
            for t in tokens[k]:
                c = wt.get(t, (0, 0))
                wt[t] = (c[0] + 1, c[1]) if s == "spam" else (c[0], c[1] + 1)
        sx.check(toks == wt, "the counts of the tokens", toks, wt)
