"""Extraction and loading of the resolved program (see tool/extract.cpp)."""
import hashlib, json, os, subprocess, sys, re, shutil, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.setrecursionlimit(20000)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/source"
CACHE = os.environ.get("VERIF_CACHE", VERIF + "/.cache")
RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisBroken(Exception):
    """The analysis itself cannot proceed (missing anchor, parse failure, ...)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def tool():
    src = open(VERIF + "/tool/extract.cpp", "rb").read()
    os.makedirs(CACHE, exist_ok=True)
    exe = CACHE + "/extract-" + _sha(src)
    if not os.path.exists(exe):
        r = subprocess.run(["bash", VERIF + "/tool/build.sh", exe], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("cannot build the extractor:\n" + r.stderr[-2000:])
    return exe


_treehash = None
def tree_hash():
    """Hash of every file under /repo/source (any change invalidates every cached extraction)."""
    global _treehash
    if _treehash is None:
        h = hashlib.sha256()
        for d, ds, fs in sorted(os.walk(SRC)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h")) and f != "config.hpp":
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
        _treehash = h.hexdigest()[:24]
    return _treehash


def config_dir():
    """An include directory holding config.hpp (generated by cmake in a build tree, ignored by git)."""
    d = CACHE + "/config"
    os.makedirs(d, exist_ok=True)
    t = "#ifndef ARIADNE_CONFIG_HPP\n#define ARIADNE_CONFIG_HPP\n"
    for n, v in [("CHAR", 1), ("SHORT_INT", 2), ("INT", 4), ("LONG_INT", 8), ("LONG_LONG_INT", 8), ("FLOAT", 4), ("DOUBLE", 8)]:
        t += "#define SIZEOF_%s %d\n" % (n, v)
    t += "#define ARIADNE_ENABLE_STACK_TRACE\n#endif\n"
    p = d + "/config.hpp"
    if not os.path.exists(p) or open(p).read() != t:
        tmp = p + ".%d.%d" % (os.getpid(), threading.get_ident())
        open(tmp, "w").write(t); os.replace(tmp, p)
    return d


def flags():
    # config.hpp in the source tree (same guard) wins when present; otherwise ours is found
    return ["-std=gnu++20", "-I" + SRC, "-I" + VERIF + "/tu", "-I" + config_dir(), "-w", "-frounding-math",
            "-resource-dir", RES, "-ferror-limit=5"]


def extract(tu, regex=".", extra=(), roots=None, lenient=None):
    """Extract one translation unit; returns the path of the jsonl file."""
    exe = tool()
    roots = roots or [SRC, VERIF + "/tu"]
    if lenient is None: lenient = tu.startswith(VERIF)
    env = dict(os.environ, EXTRACT_LENIENT="1") if lenient else None
    key = _sha(tree_hash(), open(tu, "rb").read(), tu, regex, " ".join(extra), ":".join(roots), exe)
    out = CACHE + "/ir-" + os.path.basename(tu) + "-" + key + ".jsonl"
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run([exe, tmp, ":".join(roots), regex, tu, "--"] + flags() + (["-ferror-limit=0"] if lenient else []) + list(extra), capture_output=True, text=True, env=env)
    if r.returncode != 0 or not os.path.exists(tmp):
        raise AnalysisBroken("cannot parse %s:\n%s" % (tu, r.stderr[-3000:]))
    # drop stale extractions of the same unit
    for f in os.listdir(CACHE):
        if f.startswith("ir-" + os.path.basename(tu) + "-") and f.endswith(".jsonl") and CACHE + "/" + f != out:
            try:
                if time.time() - os.path.getmtime(CACHE + "/" + f) > 3600: os.unlink(CACHE + "/" + f)
            except OSError: pass
    os.replace(tmp, out)
    return out


class Fn:
    """Metadata of a function (callee), with its body when extracted."""
    __slots__ = ("id", "q", "n", "rec", "ret", "p", "flags", "file", "line", "params", "inits", "body", "inst", "ext", "acc", "ovr", "tq", "pat")
    def __init__(s, d):
        s.id = d["i"]; s.q = d["q"]; s.n = d["n"]; s.rec = d["rec"]; s.ret = d["ret"]; s.p = d["p"]
        s.flags = frozenset(k for k in d if d[k] == 1 and k not in ("l",))
        s.file = d["f"]; s.line = d["l"]; s.params = None; s.inits = None; s.body = None; s.inst = False; s.ext = False; s.acc = None; s.ovr = []
        s.tq = re.sub(r"<.*", "", s.q); s.pat = False
    def has(s, f): return f in s.flags
    @property
    def where(s): return "%s:%d" % (s.file.replace(REPO + "/", ""), s.line)
    def sig(s): return "%s(%s)%s" % (s.q, ", ".join(s.p), " const" if s.has("const") else "")
    def __repr__(s): return "<%s @%s>" % (s.sig(), s.where)


class Program:
    def __init__(self):
        self.fns = {}; self.recs = {}; self.enums = {}; self.gvars = {}; self.units = []
    def load(self, path, tu):
        self.units.append(tu)
        with open(path) as f: txt = f.read()
        # the fns table is written last and spans several lines
        pos = txt.rfind('{"k":"fns"')
        head = txt[:pos]; tail = txt[pos:]
        tail = tail[:tail.rfind('{"k":"end"}')]
        table = []
        for d in json.loads(tail)["fns"]:
            f = self.fns.get(d["i"])
            if f is None: f = Fn(d); self.fns[d["i"]] = f
            table.append(f)
        for ln in head.splitlines():
            if not ln: continue
            d = json.loads(ln); k = d["k"]
            if k == "fn":
                f = table[d["fi"]]
                if f.body is None:
                    f.file = d["f"]; f.line = d["l"]
                    f.params = d["ps"]; f.inits = d.get("inits"); f.body = _resolve(d["body"], table)
                    if f.inits: f.inits = [[a, b, _resolve(c, table), w] for a, b, c, w in f.inits]
                    f.inst = bool(d.get("inst")); f.ext = bool(d.get("ext")); f.acc = d.get("acc"); f.pat = bool(d.get("pat"))
                    f.ovr = [table[i] for i in d.get("ovr", [])]
            elif k == "rec":
                d["methods"] = [table[i] for i in d["methods"]]
                self.recs.setdefault(d["q"], d)
            elif k == "enum": self.enums.setdefault(d["q"], d["vals"])
            elif k == "gvar":
                d["init"] = _resolve(d["init"], table) if d["init"] else None
                self.gvars.setdefault(d["q"], d)
    def bodies(self): return [f for f in self.fns.values() if f.body is not None]
    def find(self, q=None, n=None, rec=None, pred=None, body=True):
        r = []
        for f in self.fns.values():
            if body and f.body is None: continue
            if q is not None and f.q != q and f.tq != q: continue
            if n is not None and f.n != n: continue
            if rec is not None and f.rec != rec: continue
            if pred is not None and not pred(f): continue
            r.append(f)
        return sorted(r, key=lambda f: (f.file, f.line, f.id))


_FNPOS = {"call": 1, "mcall": 1, "ctor": 1, "fn": 1, "ictor": 1, "mfn": 2}
def _resolve(t, table):
    """Replace callee indices by Fn objects, in place."""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, list) or not x: continue
        h = x[0]
        if isinstance(h, str) and h in _FNPOS and len(x) > _FNPOS[h] and isinstance(x[_FNPOS[h]], int):
            x[_FNPOS[h]] = table[x[_FNPOS[h]]]
        elif h == "lambda" and len(x) >= 3:
            x[1] = [table[i] for i in x[1]]
        for y in x:
            if isinstance(y, list): st.append(y)
    return t


def load(tus, regex=".", extra=(), jobs=8):
    """Extract (in parallel) and load translation units."""
    tool()
    def one(t): return extract(t, regex, extra)
    with ThreadPoolExecutor(jobs) as ex:
        paths = list(ex.map(one, tus))
    p = Program()
    for t, q in zip(tus, paths): p.load(q, t)
    return p


def walk(t):
    """All list nodes of an IR tree, preorder."""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, list):
            yield x
            st.extend(y for y in reversed(x) if isinstance(y, list))


def calls(t):
    for x in walk(t):
        if x and x[0] in ("call", "mcall", "ctor") and isinstance(x[1], Fn): yield x
