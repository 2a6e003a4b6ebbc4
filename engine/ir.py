"""Loads the resolved program exported by `extract` (see extract.cpp).

The extractor is run on /repo's current working tree every time; nothing is
cached between runs of a check.
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
RES = "/usr/lib/llvm-18/lib/clang/18"

BACKENDS = {
    "nlohmann": ["-DCPPDAP_JSON_NLOHMANN=1"],
    "rapid": ["-DCPPDAP_JSON_RAPID=1"],
    "jsoncpp": ["-DCPPDAP_JSON_JSONCPP=1", "-I/usr/include/jsoncpp"],
}


class AnalysisError(Exception):
    """The analysis itself cannot run (not a verdict on the property)."""


def flags(backend="nlohmann"):
    return (["-std=gnu++11", "-I" + REPO + "/include", "-I" + REPO + "/src"]
            + BACKENDS[backend] + ["-resource-dir=" + RES, "-w", "-ferror-limit=3"])


def ensure_extractor():
    exe = os.path.join(VERIF, "build", "extract")
    r = subprocess.run([os.path.join(HERE, "build.sh")], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(exe):
        raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])
    return exe


_STR = re.compile(r"std::(?:__cxx11::)?basic_string<char(?:, std::char_traits<char>, std::allocator<char>)?>")


def norm_type(s, tu):
    s = s.replace("(anonymous namespace)", "anon[" + tu + "]")
    s = s.replace("std::__cxx11::", "std::").replace("std::_V2::", "std::")
    s = _STR.sub("std::string", s)
    return s


class Fn(object):
    __slots__ = ("key", "q", "n", "kind", "p", "ret", "rec", "static", "virt",
                 "params", "inits", "body", "tu", "ov", "defaulted", "impl",
                 "variadic", "tmpl", "cm", "pe", "acc", "const", "internal")

    def __repr__(self):
        return "<Fn %s>" % self.q


class Rec(object):
    pass


class Program(object):
    def __init__(self):
        self.fns = {}
        self.recs = {}
        self.globals = {}
        self.tus = []
        self.files = set()

    # -- loading ---------------------------------------------------------
    def load(self, data):
        tu = data["tu"]
        types = [norm_type(t, tu) for t in data["types"]]
        files = data["files"]

        def s(x):
            return norm_type(x, tu)

        def fix(n):
            """Resolve type ids, positions and names, in place."""
            stack = [n]
            while stack:
                o = stack.pop()
                if isinstance(o, list):
                    stack.extend(x for x in o if isinstance(x, (dict, list)))
                    continue
                for k, v in list(o.items()):
                    if k in ("t", "dt", "from", "ct", "at", "ret", "ft", "sizeof", "alignof", "base", "dty"):
                        if isinstance(v, int) and not isinstance(v, bool):
                            o[k] = types[v] if v >= 0 else ""
                    elif k in ("pt", "targs"):
                        o[k] = [types[i] for i in v]
                    elif k in ("p", "pe", "pb"):
                        if v is not None:
                            o[k] = (files[v[0]], v[1], v[2])
                    elif k in ("q", "rec", "k") and isinstance(v, str):
                        if k != "k" or "::" in v:
                            o[k] = s(v)
                    elif k == "d":
                        o[k] = (tu, v)
                    elif isinstance(v, (dict, list)):
                        stack.append(v)
        fix(data["functions"])
        fix(data["globals"])
        for k, r in data["records"].items():
            for f in r["fields"]:
                fix(f)
            for b in r["bases"]:
                b["k"] = s(b["k"])
            for m in r["methods"]:
                m["pt"] = [types[i] for i in m["pt"]]
            r["q"] = s(r["q"])
            if r["p"]:
                r["p"] = (files[r["p"][0]], r["p"][1], r["p"][2])
            r["key"] = s(k)
            r["tu"] = tu
            old = self.recs.get(r["key"])
            if old is None or (not old["methods"] and r["methods"]):
                self.recs[r["key"]] = r
        for g in data["globals"]:
            self.globals.setdefault(g["q"], g)
        for f in data["functions"]:
            if f["key"] in self.fns:
                continue
            o = Fn()
            o.key, o.q, o.n, o.kind, o.p = f["key"], f["q"], f["n"], f["kind"], f["p"]
            o.pe = f.get("pe")
            o.ret, o.rec, o.static = f["ret"], f.get("rec"), f.get("static", False)
            o.virt, o.params = f.get("virt", False), f["params"]
            o.inits, o.body, o.tu = f.get("inits", []), f["body"], tu
            o.ov = f.get("ov", [])
            o.defaulted, o.impl = f.get("def", False), f.get("impl", False)
            o.variadic, o.tmpl, o.cm = f.get("var", False), f.get("tmpl", False), f.get("cm", "")
            o.acc, o.const, o.internal = f.get("acc"), f.get("const", False), f.get("int", False)
            self.fns[o.key] = o
        self.tus.append(tu)
        self.files.update(files)

    # -- queries ---------------------------------------------------------
    def bases(self, rec, seen=None):
        """All (transitive) bases of a record, itself first."""
        out, todo = [], [rec]
        while todo:
            r = todo.pop(0)
            if r in out:
                continue
            out.append(r)
            if r in self.recs:
                todo.extend(b["k"] for b in self.recs[r]["bases"])
        return out

    def derives(self, rec, base):
        return base in self.bases(rec)

    def subclasses(self, base):
        return [r for r in self.recs if r != base and base in self.bases(r)]

    def method(self, rec, name, pred=None):
        out = []
        for f in self.fns.values():
            if f.rec == rec and f.n == name and not f.impl and (pred is None or pred(f)):
                out.append(f)
        return out

    def overrider(self, rec, key):
        """The function that a virtual call to `key` reaches on dynamic type rec."""
        for r in self.bases(rec):
            info = self.recs.get(r)
            if not info:
                continue
            for m in info["methods"]:
                if m["key"] == key or self._overrides(m["key"], key, r):
                    return m["key"]
        return None

    def _overrides(self, mkey, key, rec):
        todo, seen = [mkey], set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            if k == key:
                return True
            for r in self.bases(rec):
                info = self.recs.get(r)
                if info:
                    for m in info["methods"]:
                        if m["key"] == k:
                            todo.extend(m["ov"])
        return False


def extract(files, backend="nlohmann", roots=None, extra=()):
    """Extract the given sources of /repo (and witnesses of /verif)."""
    exe = ensure_extractor()
    roots = roots or [REPO + "/src/", REPO + "/include/", VERIF + "/witness/"]
    prog = Program()
    tmp = tempfile.mkdtemp(prefix="vp-ir-")
    try:
        def one(i_f):
            i, f = i_f
            out = os.path.join(tmp, "%d.json" % i)
            keep = os.environ.get("VERIF_IRCACHE")   # development only (tools/mut.py)
            if keep:
                keep = os.path.join(keep, hashlib.sha1(repr((f, roots, backend, list(extra))).encode()).hexdigest())
                if os.path.exists(keep):
                    with open(keep) as fh:
                        return json.load(fh)
            r = subprocess.run([exe, out, ":".join(roots), f, "--"] + flags(backend) + list(extra),
                               capture_output=True, text=True, cwd=tmp)
            if not os.path.exists(out):
                raise AnalysisError("extractor failed on %s: %s" % (f, r.stderr[-1500:]))
            with open(out) as fh:
                d = json.load(fh)
            if not d["ok"]:
                raise AnalysisError("%s does not compile: %s" % (f, r.stderr[-1500:]))
            if keep:
                os.replace(out, keep)
            return d
        with ThreadPoolExecutor(8) as ex:
            for d in ex.map(one, enumerate(files)):
                prog.load(d)
    finally:
        for n in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)
    return prog


def src(*names):
    return [os.path.join(REPO, "src", n) for n in names]


def posn(p):
    if not p:
        return "?"
    f = p[0]
    if f.startswith(REPO + "/"):
        f = f[len(REPO) + 1:]
    return "%s:%d" % (f, p[1])


if __name__ == "__main__":
    pr = extract(src(*sys.argv[1:]))
    print(len(pr.fns), len(pr.recs))
