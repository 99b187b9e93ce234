"""Helpers shared by the harnesses."""
from symx import api as sx

import oa.context
import oa.errors
import oa.message
import oa.rules.parser
import oa.rules.base
import oa.plugins.base

# every module that can be imported here (plugins whose libraries are absent
# are left out), so that loading a plugin never imports inside a path
import importlib
import os
import pkgutil
import oa
import oa.plugins
MODULES = []
for _m in pkgutil.walk_packages(oa.__path__, "oa."):
    if _m.name.startswith("oa.scripts"):
        continue
    try:
        importlib.import_module(_m.name)
        MODULES.append(_m.name)
    except ImportError:
        pass


def lines(*ls):
    """Configuration text from lines (str or symbolic str)."""
    out = ""
    for x in ls:
        out = out + x + "\n"
    return out


def parser(paranoid=False, ignore_unknown=True):
    return oa.rules.parser.PADParser(paranoid=paranoid,
                                     ignore_unknown=ignore_unknown)


def load(text, p=None, paranoid=False, name="a.cf", **more):
    """Parse configuration text (as a file) and return the parser."""
    fs = {name: text}
    fs.update(more)
    root = sx.files(fs)
    if p is None:
        p = parser(paranoid)
    p.parse_file(root + "/" + name)
    return p


def ruleset(text, paranoid=False, plugins=()):
    p = parser(paranoid)
    for name in plugins:
        p.ctxt.load_plugin(name)
    load(text, p)
    return p.get_ruleset()


def message(ctxt, raw="Subject: x\n\nbody\n"):
    return oa.message.Message(ctxt, raw)


def add_eval(ctxt, name, func):
    """Register an eval test the way a plugin would."""
    ctxt.eval_rules[name] = func


class Probe(oa.plugins.base.BasePlugin):
    """A plugin recording the events it gets; eval tests driven by OUTCOME."""
    log = []


# ---- the daemon ---------------------------------------------------------
import io
import logging
import oa.server


class Writer(object):
    """The write side of a connection."""

    def __init__(self):
        self.parts = []

    def write(self, data):
        self.parts.append(data)

    def value(self):
        out = b""
        for p in self.parts:
            out = out + p
        return out


def server(rs=None, results=None):
    """A server that has loaded its configuration (no sockets)."""
    s = object.__new__(oa.server.Server)
    s.paranoid = False
    s.ignore_unknown = True
    s._ruleset = rs
    s._user_rulesets = {}
    s._parser_results = results
    s._config_files = []
    s.sitepath = s.configpath = None
    s.log = logging.getLogger("oa-logger")
    return s


def request(srv, data, rfile=None):
    """Handle one request; the response as bytes."""
    h = object.__new__(oa.server.RequestHandler)
    h.rfile = rfile if rfile is not None else io.BytesIO(data)
    h.wfile = Writer()
    h.server = srv
    h.handle()
    return h.wfile.value()
