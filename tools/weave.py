"""Mechanical weaving of contracts into the preprocessed real code.

The only edits are text insertions and renamed call targets (see DESIGN.md):
  * loop heads get a cut point  NB_HEAD_k  inside the loop's own condition,
  * calls to functions that are abstracted by a contract are renamed to the
    contract stub  NBC_f,
  * optional: #include of the ghost state before the first function,
  * optional: extern function definitions not wanted are left as they are.
Nothing is dropped or rewritten.
"""
import json, os, subprocess, hashlib, sys, re, threading

REPO = os.environ.get("NB_REPO", "/repo")
CPP_FLAGS = ["-std=c99", "-D_XOPEN_SOURCE=600", "-D_FILE_OFFSET_BITS=64",
             "-I", REPO + "/src", "-I", REPO + "/third-party"]

class ExtractionError(Exception): pass

def preprocess(src, cache, extra=()):
    """clang -E -P of one translation unit of the project."""
    r = subprocess.run(["clang", "-E", "-P", *CPP_FLAGS, *extra, src],
                       capture_output=True, text=True, errors="surrogateescape")
    if r.returncode != 0:
        raise ExtractionError("clang -E failed on %s: %s" % (src, r.stderr[-2000:]))
    # glibc typedefs these for clang; goto-cc has them as keywords
    text = re.sub(r"\b_Float(\d+x?)\b", r"nb_Float\1", r.stdout)
    h = hashlib.sha256(text.encode("utf8", "surrogateescape")).hexdigest()[:16]
    base = os.path.join(cache, os.path.basename(src)[:-2] + "-" + h)
    path = base + ".i.c"
    if not os.path.exists(path):
        tmp = path + ".%d.%d" % (os.getpid(), threading.get_ident())
        with open(tmp, "w", errors="surrogateescape") as f: f.write(text)
        os.rename(tmp, path)
    return path, text

_builtin = None
def macros(src, cache):
    """macro definitions of the project and of system constants, for use by
    the harness text only (which is appended after the preprocessed code)"""
    global _builtin
    def dm(arg, inp=None):
        r = subprocess.run(["clang", "-E", "-dM", *CPP_FLAGS, *arg], input=inp, capture_output=True, text=True, errors="replace")
        out = {}
        for l in r.stdout.splitlines():
            m = re.match(r"#define (\w+)(.*)", l)
            if m: out[m.group(1)] = m.group(2)
        return out
    if _builtin is None: _builtin = dm(["-x", "c", "-"], "")
    out = []
    for k, v in sorted(dm([src]).items()):
        if k in _builtin or not re.match(r"([A-Z][A-Z0-9_]*|backupHint\w+|true|false|bool)$", k): continue
        if k.startswith("CR_") or k.startswith("NB_"): continue
        out.append("#undef %s\n#define %s%s" % (k, k, v))
    return "\n".join(out)

def ast(path):
    """JSON AST (cached beside the preprocessed text)."""
    jp = path[:-2] + ".json"
    if not os.path.exists(jp):
        tmp = jp + ".%d.%d" % (os.getpid(), threading.get_ident())
        with open(tmp, "w") as f:
            r = subprocess.run(["clang", "-std=c99", "-w", "-fsyntax-only", "-Xclang",
                                "-ast-dump=json", path], stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise ExtractionError("clang failed on %s: %s" % (path, r.stderr[-2000:]))
        os.rename(tmp, jp)
    with open(jp) as f: return json.load(f)

def off(loc):
    if "offset" in loc: return loc["offset"]
    if "spellingLoc" in loc: return loc["spellingLoc"]["offset"]
    raise ExtractionError("no offset")

def rbegin(n): return off(n["range"]["begin"])
def rend(n):
    e = n["range"]["end"]
    if "spellingLoc" in e: e = e["spellingLoc"]
    return e["offset"] + e["tokLen"]

class Func:
    def __init__(self, node): self.node = node; self.name = node["name"]; self.loops = []; self.calls = []

class Loop:
    """k: id, kind, locals in scope, modified locals."""
    pass

class Unit:
    """One translation unit: functions, loops, calls, with source offsets."""
    def __init__(self, src, cache, extra=()):
        self.src = src
        self.path, self.text = preprocess(src, cache, extra)
        # clang offsets are bytes
        self.data = self.text.encode("utf8", "surrogateescape")
        self.tree = ast(self.path)
        self.macros = macros(src, cache)
        self.funcs = {}; self.protos = {}; self.loops = []; self.promote = []
        for n in self.tree.get("inner", []):
            if n.get("kind") == "FunctionDecl" and "range" in n and "offset" in str(n["range"]["begin"]):
                if any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
                    self.funcs[n["name"]] = Func(n)
                self.protos.setdefault(n["name"], n)
        for f in self.funcs.values(): self._scan(f)
        self.first_def = min((rbegin(f.node) for f in self.funcs.values()), default=len(self.data))

    # --- scanning -----------------------------------------------------------
    def _scan(self, f):
        node = f.node
        f.params = [(p["name"], p["type"]["qualType"], p["id"]) for p in node.get("inner", [])
                    if p.get("kind") == "ParmVarDecl" and "name" in p]
        body = [c for c in node["inner"] if c.get("kind") == "CompoundStmt"][0]
        f.body = body
        f.rettype = node["type"]["qualType"].split("(")[0].strip()
        addr_taken = set()
        self._addr(body, addr_taken)
        scope = [(n, t, i) for (n, t, i) in f.params]
        self._walk(f, body, scope, addr_taken, depth=0)

    def _addr(self, n, out):
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
            b = self._base(n["inner"][0])
            if b: out.add(b)
        if n.get("kind") == "ImplicitCastExpr" and n.get("castKind") == "ArrayToPointerDecay":
            b = self._base(n["inner"][0])
            if b: out.add(b)
        for c in n.get("inner", []) or []:
            if c: self._addr(c, out)

    def _base(self, n):
        """id of the local variable an lvalue expression is rooted in."""
        k = n.get("kind")
        if k == "DeclRefExpr":
            d = n.get("referencedDecl", {})
            return d.get("id") if d.get("kind") in ("VarDecl", "ParmVarDecl") else None
        if k == "MemberExpr" and not n.get("isArrow"): return self._base(n["inner"][0])
        if k in ("ParenExpr",): return self._base(n["inner"][0])
        if k == "ArraySubscriptExpr":
            c = n["inner"][0]
            while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"): c = c["inner"][0]
            if "[" in c.get("type", {}).get("qualType", ""): return self._base(c)
        return None

    def _mods(self, n, out):
        k = n.get("kind")
        if k in ("BinaryOperator",) and n.get("opcode") == "=" or k == "CompoundAssignOperator":
            b = self._base(n["inner"][0])
            if b: out.add(b)
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
            b = self._base(n["inner"][0])
            if b: out.add(b)
        for c in n.get("inner", []) or []:
            if c: self._mods(c, out)

    def _walk(self, f, n, scope, addr, depth):
        k = n.get("kind")
        if k == "CallExpr":
            c = n["inner"][0]
            while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"): c = c["inner"][0]
            if c.get("kind") == "DeclRefExpr" and c.get("referencedDecl", {}).get("kind") == "FunctionDecl":
                f.calls.append((c["referencedDecl"]["name"], rbegin(c), rend(c)))
                if "..." in c["referencedDecl"].get("type", {}).get("qualType", ""):
                    # goto-cc does not promote variadic arguments: spell it out
                    for a in n["inner"][1:]:
                        if a.get("kind") == "ImplicitCastExpr" and a.get("castKind") == "IntegralCast" and a["type"].get("qualType") == "int":
                            self.promote.append((rbegin(a), rend(a)))
        if k in ("ForStmt", "WhileStmt", "DoStmt"):
            L = Loop(); L.kind = k; L.func = f.name; L.node = n; L.k = None
            ins = n["inner"]
            inner_scope = list(scope); L.init_decls = []
            if k == "ForStmt":
                init, _, cond, inc, body = (ins + [{}] * 5)[:5]
                if init.get("kind") == "DeclStmt":
                    for d in init["inner"]:
                        if d.get("kind") == "VarDecl":
                            inner_scope.append((d["name"], d["type"]["qualType"], d["id"]))
                            L.init_decls.append(d["name"])
            elif k == "WhileStmt": cond, body = ins[0], ins[-1]; init = inc = {}
            else: body, cond = ins[0], ins[1]; init = inc = {}
            L.cond, L.body, L.inc, L.init = cond, body, inc, init
            m = set()
            for part in (cond, body, inc):
                if part: self._mods(part, m)
            seen = {}
            for (nm, t, i) in inner_scope: seen[nm] = (nm, t, i)   # inner declarations shadow
            L.scope = list(seen.values())
            L.modified = [(nm, t) for (nm, t, i) in L.scope if i in m or (i in addr)]
            L.range = (rbegin(n), rend(n))
            if k == "ForStmt" and not cond:
                # position right after the first ';' following init
                L.condpos = None
            self.loops.append(L); f.loops.append(L)
            L.k = len(self.loops) - 1
            L.ordinal = len(f.loops) - 1
            for part in (init, cond, inc):
                if part: self._walk(f, part, inner_scope, addr, depth + 1)
            self._walk(f, body, inner_scope, addr, depth + 1)
            return
        if k == "CompoundStmt":
            sc = list(scope)
            for c in n.get("inner", []) or []:
                if c.get("kind") == "DeclStmt":
                    for d in c["inner"]:
                        if d.get("kind") == "VarDecl" and d.get("storageClass") != "static":
                            sc.append((d["name"], d["type"]["qualType"], d["id"]))
                self._walk(f, c, sc, addr, depth + 1)
            return
        for c in n.get("inner", []) or []:
            if c: self._walk(f, c, scope, addr, depth + 1)

    def callgraph(self):
        return {n: {c for (c, _, _) in f.calls} for n, f in self.funcs.items()}

    def text_at(self, a, b): return self.data[a:b].decode("utf8", "surrogateescape")

    # --- weaving ------------------------------------------------------------
    def weave(self, rename_calls=(), cut=True, mid_include=None, cut_funcs=None, nocut=(), wcheck=False):
        """rename_calls: set of (caller or None, callee) -> NBC_callee."""
        ins = []   # (offset, order, text) insertions
        rep = []   # (a, b, text) replacements
        renamed = set()
        for f in self.funcs.values():
            for (c, a, b) in f.calls:
                if (f.name, c) in rename_calls or (None, c) in rename_calls:
                    rep.append((a, b, "NBC_" + c)); renamed.add(c)
        for c in sorted(renamed):
            n = self.funcs[c].node if c in self.funcs else self.protos.get(c)
            if n is None: raise ExtractionError("no declaration of " + c)
            first = self.protos[c]
            # header of the definition/declaration, with the name replaced
            if c in self.funcs:
                hdr = self.text_at(rbegin(n), rbegin(self.funcs[c].body))
            else:
                hdr = self.text_at(rbegin(n), rend(n))
            nameoff = off(n["loc"]) - rbegin(n)
            hdr = hdr[:nameoff] + "NBC_" + hdr[nameoff:]
            hdr = re.sub(r"^\s*(extern|static|inline)\s+", "static ", hdr.strip())
            if not hdr.startswith("static "): hdr = "static " + hdr
            ins.append((rbegin(first), 0, "\n" + hdr + ";\n"))
        if mid_include:
            ins.append((self.first_def, 1, "\n#include \"%s\"\n" % mid_include))
        for (a, b) in self.promote: ins += [(a, 9, "+("), (b, -9, ")")]
        cuts = []
        if cut:
            for L in self.loops:
                if cut_funcs is not None and L.func not in cut_funcs: continue
                if (L.func, L.ordinal) in nocut or (L.func, None) in nocut: continue
                a, b = L.range
                # statement end: include the trailing ';' of do-while / null bodies
                e = self._stmt_end(L)
                ins.append((a, 5, " { NB_PRE_%d " % L.k))
                ins.append((e, -5, " } "))
                if L.kind == "DoStmt":
                    bb = rbegin(L.body)
                    if L.body.get("kind") == "CompoundStmt": ins.append((bb + 1, 0, " NB_HEAD_%d; " % L.k))
                    else: raise ExtractionError("do body without block")
                elif L.cond:
                    ca, cb = rbegin(L.cond), rend(L.cond)
                    ins.append((ca, 6, "({ NB_HEAD_%d; 1; }) && (" % L.k))
                    ins.append((cb, -6, ")"))
                else:
                    pos = self._empty_cond(L)
                    ins.append((pos, 0, " ({ NB_HEAD_%d; 1; }) " % L.k))
                cuts.append(L)
        out = self._apply(ins, rep)
        return out, cuts

    def _stmt_end(self, L):
        """end offset of the whole loop statement."""
        e = rend(L.node)
        d = self.data
        last = d[e-1:e]
        if last in (b"}", b";"): return e
        i = e
        while d[i:i+1].isspace(): i += 1
        if d[i:i+1] == b";": return i + 1
        return e

    def _empty_cond(self, L):
        # for(init; ; inc): first top-level ';' after '('
        i = L.range[0]
        d = self.data
        while d[i:i+1] != b"(": i += 1
        if L.init: i = rend(L.init) - (1 if d[rend(L.init)-1:rend(L.init)] == b";" else 0)
        while d[i:i+1] != b";": i += 1
        return i + 1

    def _apply(self, ins, rep):
        ev = [(o, 0, order, t, 0) for (o, order, t) in ins] + [(a, 1, 0, t, b - a) for (a, b, t) in rep]
        ev.sort(key=lambda x: (x[0], x[1], x[2]))
        out = []; pos = 0
        for (o, _, _, t, skip) in ev:
            if o > pos:
                out.append(self.data[pos:o]); pos = o
            out.append(t.encode("utf8", "surrogateescape"))
            if skip: pos = o + skip
        out.append(self.data[pos:])
        return b"".join(out).decode("utf8", "surrogateescape")

if __name__ == "__main__":
    u = Unit(sys.argv[1], "/tmp/w")
    for L in u.loops: print(L.k, L.func, L.ordinal, L.kind, "mod:", L.modified)
    t, c = u.weave()
    open("/tmp/w/out.c", "w").write(t)
