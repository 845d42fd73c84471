#!/usr/bin/env python3
"""Runs the contract proofs of a property.  See DESIGN.md.

  nbrun.py check <PROPERTY>        registered check (quick or thorough tier)
  nbrun.py unit <unit> [entry]     one unit, verbose
"""
import json, os, re, subprocess, sys, time, tempfile, shutil, hashlib, itertools, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import weave
REPO = weave.REPO
UNITS = os.path.join(VERIF, "units")
HINTS = os.path.join(VERIF, "hints")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
BUDGET = float(os.environ.get("NB_BUDGET", "800"))

INT_TYPES = {"size_t", "uint64_t", "uint32_t", "uint8_t", "int", "unsigned int", "unsigned long", "long", "char",
             "unsigned char", "uint16_t", "ssize_t", "time_t", "mode_t", "uid_t", "gid_t", "off_t", "short", "int64_t", "int32_t"}
BOOL_TYPES = {"_Bool", "bool"}

def strip_const(t):
    t = t.strip()
    if t.endswith("*const"): t = t[:-5].strip()
    if t.startswith("const ") and "*" not in t: t = t[6:]
    return t.strip()

class UnitDef:
    def __init__(self, name):
        self.name = name
        self.file = os.path.join(UNITS, name + ".c")
        text = open(self.file).read()
        m = re.match(r"/\*NB-UNIT\s*(\{.*?\n\})\s*\*/", text, re.S)
        self.cfg = json.loads(m.group(1))
        body = text[m.end():]
        parts = re.split(r"^//@(PRE|MID|POST)\s*$", body, flags=re.M)
        self.sec = {"PRE": "", "MID": "", "POST": ""}
        for i in range(1, len(parts), 2): self.sec[parts[i]] += parts[i + 1]
        for k in self.sec:
            while re.search(r"^//@include ", self.sec[k], re.M):
                self.sec[k] = re.sub(r"^//@include (\S+)\s*$", lambda mm: open(os.path.join(VERIF, "lib", mm.group(1))).read(), self.sec[k], flags=re.M)
        c = self.cfg
        self.src = c["src"]
        self.entries = c.get("entries", ["harness"])
        self.unwind = c.get("unwind", 3)
        self.bunwind = c.get("bunwind", 4)

_unit_cache = {}; _uc_lock = threading.Lock()
def load_tu(src, cache, extra=()):
    p = os.path.join(REPO, src)
    with _uc_lock:
        if (p, extra) not in _unit_cache:
            _unit_cache[(p, extra)] = weave.Unit(p, cache, extra)
        return _unit_cache[(p, extra)]

def srcpath(s):
    return s if "/" in s else "src/" + s

def cand_expand(expr, L, gens):
    """all instantiations of the holes in a candidate invariant for loop L"""
    holes = []
    for m in re.finditer(r"\$(?:p\(([^)]*)\)|([ub]))(\d?)", expr):
        h = m.group(0)
        if h not in [x[0] for x in holes]: holes.append((h, m.group(1), m.group(2)))
    if not holes: return [expr]
    opts = []
    for h, pt, ub in holes:
        vs = []
        for (n, t, i) in L.scope:
            st = strip_const(t)
            if pt is not None:
                if st.replace("const ", "").strip() == pt.strip(): vs.append(n)
            elif ub == "u" and st in INT_TYPES: vs.append(n)
            elif ub == "b" and st in BOOL_TYPES: vs.append(n)
        opts.append(vs)
    out = []
    modn = {n for n, t in L.modified}
    for combo in itertools.product(*opts):
        if len(set(combo)) != len(combo): continue
        if not any(n in modn for n in combo) and "G." not in expr: continue
        e = expr
        for (h, _, _), v in sorted(zip(holes, combo), key=lambda z: -len(z[0][0])):
            e = e.replace("@" + h, ("nb_e_" + v) if v in modn else v)
            e = e.replace(h, v)
        out.append(e)
    return out

def loop_plan(ud, L):
    """(decls, havoc, keep checks, candidates) for one cut loop"""
    cfg = ud.cfg
    decls, save, havoc, keep, cands = [], [], [], [], []
    direct = set()
    m = set()
    for part in (L.cond, L.body, L.inc):
        if part: L.unit._mods(part, m)
    ids = {n: i for (n, t, i) in L.scope}
    for n, t in L.modified:
        st = strip_const(t)
        directly = ids.get(n) in m
        if "[" in st:
            base, dim = st.split("[", 1)
            havoc.append("NB_HAVOC_ARR(%s);" % n)
            continue
        if n in cfg.get("deadlocals", []) or strip_const(st) in cfg.get("deadtypes", []):
            continue
        nt = re.sub(r"^const ", "", st) if "*" not in st else st
        if nt in INT_TYPES or nt in BOOL_TYPES or nt in cfg.get("ints", []):
            decls.append("%s nb_e_%s;" % (nt, n)); save.append("nb_e_%s = %s;" % (n, n))
            if directly or "const" not in t:
                havoc.append("{ %s nb_t; %s%s = nb_t; }" % (nt, "__CPROVER_assume(nb_t == 0 || nb_t == 1); " if nt in BOOL_TYPES else "", n))
                cands.append("%s == nb_e_%s" % (n, n))
                if nt in INT_TYPES:
                    cands.append("%s <= nb_e_%s" % (n, n)); cands.append("%s >= nb_e_%s" % (n, n))
            continue
        key = st.replace("const ", "").strip()
        if key in cfg.get("gen", {}) and directly:
            havoc.append("%s = %s;" % (n, cfg["gen"][key])); continue
        if key in cfg.get("genset", {}):
            havoc.append(cfg["genset"][key].replace("$x", n)); continue
        if not directly and t.startswith("const ") and "*" not in t:
            continue    # a const object cannot change
        if not directly:
            decls.append("%s nb_e_%s;" % (re.sub(r"^const ", "", st) if "*" not in st else st, n))
            # whole object must be unchanged at the end of an arbitrary iteration
            save.append("__builtin_memcpy((void*)&nb_e_%s, (const void*)&%s, sizeof %s);" % (n, n, n))
            keep.append("nb_bytes_eq(&%s, &nb_e_%s, sizeof %s)" % (n, n, n))
            continue
        raise weave.ExtractionError("cannot generalise local '%s' of type '%s' in loop of %s" % (n, t, L.func))
    for f in cfg.get("state", []):
        cands.append("G.%s == nb_E.%s" % (f, f))
    for f in cfg.get("mono", []):
        cands.append("G.%s >= nb_E.%s" % (f, f))
    for i, (e, t) in enumerate(cfg.get("lv", [])):
        decls.append("%s nb_l_%d;" % (t, i)); save.append("nb_l_%d = %s;" % (i, e))
        havoc.append("{ %s nb_t; %s = nb_t; }" % (t, e))
        cands.append("%s == nb_l_%d" % (e, i))
    for c in cfg.get("cands", []):
        cands += cand_expand(c, L, cfg.get("gen", {}))
    seen = []; [seen.append(c) for c in cands if c not in seen]
    return decls, save, havoc, keep, seen

os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:log_path=/dev/null"

class Job:
    """one (unit, entry)"""
    def __init__(self, ud, entry, work):
        self.ud, self.entry, self.work = ud, entry, work
        self.log = []
        self.stats = {}

    def say(self, *a): self.log.append(" ".join(str(x) for x in a))

    def build_text(self, mode, active):
        ud = self.ud; cfg = ud.cfg
        tu = load_tu(srcpath(ud.src), self.work, tuple(cfg.get("cppdefs", [])))
        rn = set()
        for r in cfg.get("rename", []) + (cfg.get("rename_p", []) if mode == "P" else []):
            a, b = r.split("@")
            if b not in tu.protos:
                raise weave.ExtractionError("function %s not found in %s" % (b, ud.src))
            rn.add((None if a == "*" else a, b))
        er = cfg.get("rename_by_entry", {}).get(self.entry)
        if er is not None:
            for r in er:
                a, b = r.split("@")
                if b not in tu.protos: raise weave.ExtractionError("function %s not found in %s" % (b, ud.src))
                rn.add((None if a == "*" else a, b))
        nocut = set()
        for x in cfg.get("nocut", []):
            if x == "*": nocut.update((g, None) for g in tu.funcs); continue
            f, _, o = x.partition(":"); nocut.add((f, int(o) if o else None))
        for L in tu.loops:
            L.unit = tu
            if L.kind == "DoStmt" and L.cond.get("kind") == "IntegerLiteral": nocut.add((L.func, L.ordinal))
            c = L.cond
        if mode == "P":
            # loops over locals that cannot be generalised stay as they are: reaching
            # one fails its unwinding assertion
            for L in tu.loops:
                try: loop_plan(ud, L)
                except weave.ExtractionError as e:
                    nocut.add((L.func, L.ordinal)); self.say(str(e))
        mid = "".join(("#define NB_MODE_%s 1\n" % mode, ud.sec["MID"]))
        d = tempfile.mkdtemp(prefix="nb-", dir=self.work)
        open(os.path.join(d, "mid.h"), "w").write(mid)
        text, cuts = tu.weave(rn, cut=(mode == "P"), mid_include=os.path.join(d, "mid.h"), nocut=nocut,
                              cut_funcs=cfg.get("cutfuncs"))
        # which functions the unit must still have
        for f in cfg.get("targets", []):
            if f not in tu.funcs: raise weave.ExtractionError("function %s not found in %s" % (f, ud.src))
        pre = []; 
        pre.append("#define NB_MODE_%s 1" % mode)
        if mode == "N": pre.append("#define NB_NATIVE 1")
        for f in tu.funcs: pre.append("#define NB_HAVE_%s 1" % f)
        pre.append("#define HARNESS %s" % self.entry)
        pre.append('#include "%s/lib/nb.h"' % VERIF)
        pre.append("#define NB_HAVOC_ARR(a) __CPROVER_havoc_object(a)")
        pre.append(ud.sec["PRE"])
        self.cuts = []
        if mode == "P":
            if cfg.get("state") is not None: pre.append("struct nb_G nondet_nb_G(void);")
            m = re.search(r"struct nb_G\s*\{(.*?)\}", ud.sec["PRE"], re.S)
            gbools = "".join(" __CPROVER_assume(G.%s == 0 || G.%s == 1);" % (x.strip(), x.strip())
                             for g in re.findall(r"_Bool ([^;]+);", m.group(1) if m else "") for x in g.split(",") if "[" not in x)
            for L in cuts:
                decls, save, havoc, keep, cands = loop_plan(ud, L)
                hasG = cfg.get("state") is not None
                key = "%s:%d" % (L.func, L.ordinal)
                act = active.get(key, None)
                cl = [(i, c) for i, c in enumerate(cands) if act is None or c in act]
                self.cuts.append((L.k, key, cands))
                pre.append("#define NB_PRE_%d _Bool nb_v_%d = 0; %s %s" % (L.k, L.k, "struct nb_G nb_E;" if hasG else "", " ".join(decls)))
                A = lambda ph: " ".join('__CPROVER_assert(%s, "INV:%d:%d:%s");' % (c, L.k, i, ph) for i, c in cl)
                head = "if(!nb_v_%d) { nb_v_%d = 1; %s %s %s %s %s NB_HAVOC_EXTRA %s } else { %s %s __CPROVER_assume(0); }" % (
                    L.k, L.k, "nb_E = G;" if hasG else "", " ".join(save), A("base"), " ".join(havoc),
                    ("G = nondet_nb_G();" + gbools) if hasG else "",
                    " ".join("__CPROVER_assume(%s);" % c for i, c in cl),
                    A("step"), " ".join('__CPROVER_assert(%s, "NB:KEEP:%d");' % (k, L.k) for k in keep))
                pre.append("#define NB_HEAD_%d %s" % (L.k, head))
            pre.append("#ifndef NB_HAVOC_EXTRA\n#define NB_HAVOC_EXTRA\n#endif")
        else:
            pre.append("")
        if mode == "N" and cfg.get("direct"):
            text = '#define _XOPEN_SOURCE 600\n#define _FILE_OFFSET_BITS 64\n#include <stdlib.h>\n#include <stdio.h>\n#include "%s"\n' % os.path.join(REPO, srcpath(ud.src))
            main = text + "\n".join(pre) + "\n" + ud.sec["POST"] + "\n"
        else: main = "\n".join(pre) + "\n" + text + "\n" + tu.macros + "\n" + ud.sec["POST"] + "\n"
        if self.entry != "harness" or True:
            main += "\nvoid nb_entry(void) { %s(); }\n" % self.entry
        open(os.path.join(d, "main.c"), "w", errors="surrogateescape").write(main)
        return d

    def link_sources(self, d):
        out = []
        for s in self.ud.cfg.get("link", []):
            p, _ = weave.preprocess(os.path.join(REPO, srcpath(s)), self.work)
            out.append(p)
        return out

    def goto_cc(self, d):
        gb = os.path.join(d, "a.gb")
        r = subprocess.run(["goto-cc", "-o", gb, "--function", "nb_entry", os.path.join(d, "main.c")] + self.link_sources(d),
                           capture_output=True, text=True, errors="replace")
        if r.returncode != 0:
            raise weave.ExtractionError("goto-cc: " + (r.stdout + r.stderr)[-3000:])
        return gb

    def cbmc(self, gb, unwind, extra=(), timeout=None, unwinding_assertions=True, trace=False):
        cfg = self.ud.cfg
        left = BUDGET - (time.time() - T0)
        timeout = max(5, min(timeout or cfg.get("timeout", 300), left))
        cmd = ["cbmc", gb, "--unwind", str(unwind), "--object-bits", str(cfg.get("object_bits", 10)),
               *(["--sat-solver", cfg["sat"]] if "sat" in cfg else []), "--no-malloc-may-fail", "--no-pointer-primitive-check", "--drop-unused-functions", "--verbosity", "8"]
        if trace: cmd.append("--json-ui")
        cmd.append("--unwinding-assertions" if unwinding_assertions else "--no-unwinding-assertions")
        us = cfg.get("unwindset", [])
        if us: cmd += ["--unwindset", ",".join(us)]
        cmd += [f.replace("$VERIF", VERIF) for f in cfg.get("flags", []) + (cfg.get("pflags", {}).get(self.entry, []) if unwinding_assertions else [])]
        cmd += list(extra)
        t = time.time()
        try:
            p = subprocess.Popen("ulimit -v 12000000; exec " + " ".join("'%s'" % c for c in cmd), shell=True,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
            try: so, se = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.communicate(); raise
        except subprocess.TimeoutExpired:
            self.stats["timeouts"] = self.stats.get("timeouts", 0) + 1
            return None, "timeout after %ds" % timeout, time.time() - t
        dt = time.time() - t
        rc = p.returncode
        if trace:
            try: j = json.loads(so)
            except Exception: return None, "cbmc trace unreadable (rc %d)" % rc, dt
            res = []
            for x in j:
                if isinstance(x, dict) and "result" in x: res += x["result"]
            return {"res": res}, None, dt
        if rc not in (0, 10) or "** Results:" not in so:
            return None, "cbmc error rc=%d: %s" % (rc, (so[-300:] + se[-900:])), dt
        res = []
        for m in re.finditer(r"^\[([^\]]+)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", so, re.M):
            res.append({"property": m.group(1), "description": m.group(2), "status": m.group(3),
                        "sourceLocation": {"function": m.group(1).split(".")[0]}})
        # a failed memory-safety assertion leaves those behind it UNKNOWN
        fatal = any(p["status"] == "FAILURE" and self.classify(p["description"]) in ("main", "safety", "inv") for p in res)
        if any(p["status"] == "ERROR" or (p["status"] == "UNKNOWN" and not fatal) for p in res):
            return None, "solver gave no answer for " + ", ".join(p["description"] for p in res if p["status"] in ("UNKNOWN", "ERROR"))[:300], dt
        nobody = sorted(set(re.findall(r"no body for function '?([^'\s]+)", so + se)) |
                        {m.group(1) for p in res for m in [re.match(r"no body for callee (\S+)", p["description"])] if m})
        solver = sum(float(x) for x in re.findall(r"Runtime Solver: ([0-9.e+-]+)s", so))
        allowed = set(cfg.get("nobody_ok", []))
        nobody = [n for n in nobody if n not in allowed and not n.startswith("nondet_")]
        return {"res": res, "nobody": nobody, "solver": solver, "time": dt, "cmd": " ".join(cmd)}, None, dt

    @staticmethod
    def classify(desc):
        if desc.startswith("NB:KEEP"): return "keep"
        if desc.startswith("NB:"): return "main"
        if desc.startswith("INV:"): return "inv"
        if desc.startswith("COVER:"): return "cover"
        if desc.startswith("unwinding assertion"): return "unwind"
        if desc.startswith("no body for callee"): return "nobody"
        return "safety"

    # ---- proof mode ----
    def prove(self):
        """returns (verdict, info): proved / refuted / undecided"""
        ud = self.ud
        hintfile = os.path.join(HINTS, "%s.%s.json" % (ud.name, self.entry))
        hints = json.load(open(hintfile)) if os.path.exists(hintfile) else None
        attempts = [hints, {}] if hints else [{}]
        last = None
        for attempt in attempts:
            active = dict(attempt)
            # drop hinted loops which do not exist any more / changed candidates -> full set
            for rnd in range(40):
                d = self.build_text("P", active)
                if rnd == 0 and attempt:
                    for k, key, cands in self.cuts:
                        if key in active and not set(active[key]) <= set(cands): active.pop(key)
                    for key in list(active):
                        if key not in [c[1] for c in self.cuts]: active.pop(key)
                    if any(c[1] not in active for c in self.cuts):
                        d = self.build_text("P", active)
                gb = self.goto_cc(d)
                out, err, dt = self.cbmc(gb, ud.unwind)
                if out is None:
                    shutil.rmtree(d, ignore_errors=True)
                    return "undecided", {"why": err}
                self.stats["cbmc_runs"] = self.stats.get("cbmc_runs", 0) + 1
                self.stats["solver_s"] = self.stats.get("solver_s", 0.0) + out["solver"]
                self.stats["cbmc_s"] = self.stats.get("cbmc_s", 0.0) + dt
                shutil.rmtree(d, ignore_errors=True)
                fails = [p for p in out["res"] if p["status"] == "FAILURE"]
                inv = [p for p in fails if self.classify(p["description"]) == "inv"]
                if not inv: break
                kc = {k: (key, cands) for k, key, cands in self.cuts}
                for k, key, cands in self.cuts:
                    active.setdefault(key, list(cands))
                for p in inv:
                    _, k, i, _ph = p["description"].split(":")[:4]
                    key, cands = kc[int(k)]
                    c = cands[int(i)]
                    if c in active[key]: active[key].remove(c)
            for k, key, cands in self.cuts: active.setdefault(key, list(cands))
            by = {}
            for p in out["res"]: by.setdefault(self.classify(p["description"]), []).append(p)
            covers = by.get("cover", [])
            dead = [p["description"] for p in covers if p["status"] == "SUCCESS"]
            bad = [p for p in fails if self.classify(p["description"]) in ("main", "safety", "keep")]
            unw = [p for p in fails if self.classify(p["description"]) == "unwind"]
            info = {"obligations": sum(1 for p in out["res"] if self.classify(p["description"]) != "cover"),
                    "failed": [p["description"] + " @" + str(p.get("sourceLocation", {}).get("function")) + ":" + p["property"] for p in bad],
                    "dead_covers": dead, "nobody": out["nobody"], "unwind": [p["property"] for p in unw],
                    "covers": len(covers), "invariants": {k: v for k, v in active.items()},
                    "contracts": sum(1 for p in by.get("main", [])), "cmd": out["cmd"], "rounds": rnd + 1}
            last = info
            if out["nobody"]: return "undecided", dict(info, why="functions without body or contract: " + ", ".join(out["nobody"]))
            if bad or dead or unw:
                continue
            if info["obligations"] == 0 or not covers:
                return "undecided", dict(info, why="no obligations or no cover: vacuous")
            if os.environ.get("NB_WRITE_HINTS") and self.cuts:
                os.makedirs(HINTS, exist_ok=True)
                json.dump(active, open(hintfile, "w"), indent=1, sort_keys=True)
            return "proved", info
        if any(f for f in last["failed"] if "KEEP" in f) and all("KEEP" in f for f in last["failed"]):
            return "undecided", dict(last, why="a local outside the generalised state changes in a loop")
        if last["failed"]: return "refuted", last
        if last["unwind"]: return "undecided", dict(last, why="loop not bounded: " + ", ".join(last["unwind"]))
        return "undecided", dict(last, why="vacuous: unreachable " + ", ".join(last["dead_covers"]))

    # ---- bounded mode ----
    def bounded(self, unwind=None, timeout=None, stop=False):
        ud = self.ud
        d = self.build_text("B", {})
        try:
            gb = self.goto_cc(d)
            extra = []
            out, err, dt = self.cbmc(gb, unwind or ud.bunwind, extra, timeout=timeout or ud.cfg.get("btimeout", 300), unwinding_assertions=False)
            self.stats["bounded_s"] = self.stats.get("bounded_s", 0.0) + dt
            if out is None: return "undecided", {"why": err}
            fails = [p for p in out["res"] if p["status"] == "FAILURE" and self.classify(p["description"]) in ("main", "safety")]
            cov = [p for p in out["res"] if self.classify(p["description"]) == "cover"]
            dead = [p["description"] for p in cov if p["status"] == "SUCCESS"]
            info = {"obligations": len([p for p in out["res"] if self.classify(p["description"]) != "cover"]), "covers": len(cov),
                    "dead_covers": dead, "nobody": out["nobody"], "failed": [p["description"] + ":" + p["property"] for p in fails],
                    "cmd": out["cmd"], "unwind": unwind or ud.bunwind}
            if out["nobody"]: return "undecided", dict(info, why="functions without body: " + ", ".join(out["nobody"]))
            if not fails:
                if dead or not cov: return "undecided", dict(info, why="vacuous: " + ", ".join(dead))
                return "clean", info
            # trace for the failing obligations, main ones first
            fails.sort(key=lambda p: self.classify(p["description"]) != "main")
            info["confirmed"] = None
            for p in fails[:6]:
                o2, e2, _ = self.cbmc(gb, unwind or ud.bunwind, ["--trace", "--property", p["property"]], timeout=timeout or 200, unwinding_assertions=False, trace=True)
                if o2 is None: continue
                tr = [q for q in o2["res"] if q["property"] == p["property"] and "trace" in q]
                if not tr: continue
                vals = []
                for s in tr[0]["trace"]:
                    if s.get("stepType") == "input":
                        for v in s.get("values", []):
                            if "data" in v:
                                dd = re.sub(r"[uUlL]+$", "", str(v["data"]))
                                try: vals.append(int(dd))
                                except ValueError: vals.append(0)
                ok, txt = self.native(vals)
                info.setdefault("replays", []).append({"obligation": p["description"], "values": vals, "native": txt, "confirmed": ok})
                if ok:
                    info["confirmed"] = info["replays"][-1]; break
            return "violated", info
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def native_bin(self, d):
        exe = os.path.join(d, "native")
        r = subprocess.run(["gcc", "-O0", "-g", "-w", "-fno-builtin", "-std=gnu99", "-DHARNESS=nb_entry", "-U_FORTIFY_SOURCE",
                            *(["-fsanitize=address"] if self.ud.cfg.get("asan") else []), "-Wl,--unresolved-symbols=ignore-all", "-o", exe, os.path.join(d, "main.c"),
                            os.path.join(VERIF, "lib", "native.c")] + self.link_sources(d) +
                           ["-D_XOPEN_SOURCE=600", "-D_FILE_OFFSET_BITS=64", "-I" + REPO + "/src", "-I" + REPO + "/third-party"] +
                           [os.path.join(REPO, srcpath(s)) for s in self.ud.cfg.get("nlink", [])],
                           capture_output=True, text=True, errors="replace")
        if r.returncode != 0: raise weave.ExtractionError("native build: " + r.stderr[-2000:])
        return exe

    def native(self, vals):
        d = self.build_text("N", {})
        try:
            exe = self.native_bin(d)
            vf = os.path.join(d, "vals.txt")
            open(vf, "w").write("\n".join(str(v % (1 << 64)) for v in vals) + "\n")
            try: r = subprocess.run([exe, vf], capture_output=True, text=True, timeout=20, errors="replace", cwd=d)
            except subprocess.TimeoutExpired: return True, "native run does not terminate"
            if r.returncode == 42: return True, r.stdout.strip()[-500:]
            if r.returncode < 0: return True, "native run died with signal %d: %s" % (-r.returncode, r.stdout.strip()[-300:])
            return False, "rc %d: %s" % (r.returncode, r.stdout.strip()[-500:])
        except weave.ExtractionError as e:
            return False, str(e)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def random_native(self, count, secs, strict=False):
        """supplementary search on the compiled real code with seeded random inputs"""
        d = self.build_text("N", {})
        try:
            exe = self.native_bin(d)
            vf = os.path.join(d, "vals.txt"); open(vf, "w").write("\n")
            try: r = subprocess.run([exe, vf, str(SEED), str(count), str(secs)], capture_output=True, text=True, timeout=secs + 20, errors="replace", cwd=d)
            except subprocess.TimeoutExpired: return None
            if r.returncode == 42:
                return {"obligation": "random native run", "seed": SEED, "values": [], "native": r.stdout.strip()[-400:], "confirmed": True}
            if strict:
                m = re.search(r"NB-DONE (\d+) (\d+)", r.stdout)
                return {"runs": int(m.group(1)), "complete": int(m.group(2)), "seed": SEED} if m else None
            return None
        except weave.ExtractionError: return None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ---- verdict ----
    def run(self):
        t = time.time()
        r = {"unit": self.ud.name, "entry": self.entry, "src": self.ud.src, "props": self.ud.cfg["props"]}
        try:
            tu = load_tu(srcpath(self.ud.src), self.work, tuple(self.ud.cfg.get("cppdefs", [])))
            miss = [f for f in self.ud.cfg.get("needs", {}).get(self.entry, []) if f not in tu.funcs]
            if miss:
                # an internal function this contract is about does not exist (any more):
                # the bounded entries of the unit stand in for it
                r["verdict"] = "skipped"; r["why"] = "no function " + ", ".join(miss); return r
            mode = self.ud.cfg.get("mode", {})
            if isinstance(mode, dict): mode = mode.get(self.entry, mode.get("*", "PB"))
            p = None
            if mode == "N":
                # supplementary runs of the compiled real code behind the unit's contracts
                c = self.random_native(self.ud.cfg.get("ncount", 20000), self.ud.cfg.get("nsecs", 20) * (4 if TIER == "thorough" else 1), strict=True)
                r["verdict"] = "violated" if c and c.get("confirmed") else "sampled" if c else "skipped"
                r["bounded"] = {"verdict": r["verdict"], "confirmed": c if c and c.get("confirmed") else None, "samples": c}
                return r
            if "P" in mode:
                try: v, info = self.prove()
                except weave.ExtractionError as e:
                    v, info = "undecided", {"why": str(e)}
                    if self.ud.cfg.get("needs", {}).get(self.entry):
                        # the internal interface this contract is written for has changed
                        r["verdict"] = "skipped"; r["why"] = str(e)[-1500:]; return r
                r["proof"] = dict(info, verdict=v)
                p = v
                if v == "proved" and TIER == "quick" and "&" not in mode: r["verdict"] = "proved"; return r
                if v == "proved":
                    r["verdict"] = "proved"
            bt = self.ud.cfg.get("btimeout", 300)
            if "B" not in mode:
                r["verdict"] = p
                if p != "proved":
                    # a failing input is searched through the public interface
                    for x in self.ud.cfg.get("confirm", []):
                        u, e = x.split("/")
                        c = Job(UnitDef(u), e, self.work).random_native(40000, 40)
                        if c: r["bounded"] = {"confirmed": c, "verdict": "violated"}; r["verdict"] = "violated"; break
                return r
            try: v, info = self.bounded(timeout=bt)
            except weave.ExtractionError as e: v, info = "undecided", {"why": str(e)}
            if TIER == "thorough" and v == "clean" and self.ud.cfg.get("tbunwind"):
                v2, info2 = self.bounded(unwind=self.ud.cfg["tbunwind"], timeout=bt)
                if v2 != "undecided": v, info = v2, info2
            r["bounded"] = dict(info, verdict=v)
            if v == "violated" and info.get("confirmed"): r["verdict"] = "violated"
            elif p == "refuted" or v == "violated":
                r["verdict"] = "refuted"
                c = self.random_native(20000, 40)
                if c: r["bounded"]["confirmed"] = c; r["verdict"] = "violated"
            elif p == "proved" and ("&" not in mode or v == "clean"): r["verdict"] = "proved"
            elif v == "clean": r["verdict"] = "bounded"
            else:
                # obligations not discharged: the verifier did not accept the code
                c = self.random_native(20000, 40)
                r["verdict"] = "undecided"
                if c: r["bounded"]["confirmed"] = c; r["verdict"] = "violated"
        except weave.ExtractionError as e:
            r["verdict"] = "undecided"; r["why"] = str(e)
        finally:
            r["wall"] = round(time.time() - t, 2); r["stats"] = self.stats
        return r

def all_units():
    return [UnitDef(f[:-2]) for f in sorted(os.listdir(UNITS)) if f.endswith(".c")]

def run_jobs(units, work, verbose=False, entries=None, prop=None):
    jobs = [Job(u, e, work) for u in units for e in u.entries if (not entries or e in entries) and
            (prop is None or prop in u.cfg.get("entry_props", {}).get(e, u.cfg["props"]))]
    jobs.sort(key=lambda j: -j.ud.cfg.get("weight", 1))
    with ThreadPoolExecutor(8) as ex: return list(ex.map(lambda j: j.run(), jobs))

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def check(prop):
    units = [u for u in all_units() if prop in u.cfg["props"] or any(prop in v for v in u.cfg.get("entry_props", {}).values())]
    if not units: print("no units for", prop); return 2
    work = tempfile.mkdtemp(prefix="nbwork-")
    try: res = run_jobs(units, work, prop=prop)
    finally: shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - T0
    rep = os.path.join(VERIF, "replays"); os.makedirs(rep, exist_ok=True)
    viol = [r for r in res if r["verdict"] in ("violated", "refuted")]
    und = [r for r in res if r["verdict"] == "undecided"]
    proved = [r for r in res if r["verdict"] == "proved"]
    bnd = [r for r in res if r["verdict"] == "bounded"]
    ob = sum((r.get("proof") or {}).get("obligations", 0) for r in res)
    di = sum((r.get("proof") or {}).get("obligations", 0) - len((r.get("proof") or {}).get("failed", [])) for r in res)
    assum = []
    for u in units:
        for a in u.cfg.get("assumes", []):
            if a not in assum: assum.append(a)
    ev = {"property": prop, "tier": TIER, "seed": SEED,
          "level": "proof" if proved else "model_checking",
          "coverage": {
            "obligations": ob, "discharged": di,
            "checker_cmd": (proved or res)[0].get("proof", (res[0].get("bounded") or {})).get("cmd", "cbmc"),
            "trusted_base": ["CBMC 6.11 (goto-cc front end, symbolic execution, built-in SAT back end)", "clang 18 (preprocessor, AST offsets)",
                             "tools/weave.py (text insertion of loop cut points, renaming of contracted calls)", "lib/*.h contracts of external functions"] ,
            "functions_under_contract": sorted({f for u in units for f in u.cfg.get("targets", [])}),
            "units_proved_unbounded": sorted(r["unit"] + "/" + r["entry"] for r in proved),
            "units_bounded_only": sorted("%s/%s (unwind %s)" % (r["unit"], r["entry"], r["bounded"].get("unwind")) for r in bnd),
            "supplementary_native_samples": {r["unit"] + "/" + r["entry"]: (r.get("bounded") or {}).get("samples") for r in res if r["verdict"] == "sampled"},
            "contracts_skipped_internal_interface_changed": {r["unit"] + "/" + r["entry"]: r.get("why", "")[:300] for r in res if r["verdict"] == "skipped"},
            "units": [{k: v for k, v in r.items() if k != "props"} for r in res],
            "solver_seconds": round(sum(r["stats"].get("solver_s", 0) for r in res), 3),
            "back_end": "cbmc built-in SAT (CaDiCaL/MiniSat)",
            "states": len(res), "transitions": ob, "traces_validated_against_impl": sum(len((r.get("bounded") or {}).get("replays", [])) for r in res),
            "samples": [r["unit"] + "/" + r["entry"] + ": " + r["verdict"] for r in res][:20]},
          "assumptions": assum, "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    rc = 0
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for r in res:
        print("%-28s %-22s %-10s %6.1fs  obligations=%s" % (r["unit"], r["entry"], r["verdict"], r["wall"], (r.get("proof") or r.get("bounded") or {}).get("obligations")))
    for r in viol:
        f = os.path.join(rep, "%s-%s-%s.json" % (prop, r["unit"], r["entry"]))
        json.dump(r, open(f, "w"), indent=1)
        conf = (r.get("bounded") or {}).get("confirmed")
        failed = (r.get("proof") or {}).get("failed") or (r.get("bounded") or {}).get("failed")
        print("failed obligation(s) in %s/%s: %s" % (r["unit"], r["entry"], "; ".join((failed or [])[:5]) or "contract check on the compiled code"))
        if conf: print("replayed on the compiled code: " + conf["native"])
        print("VIOLATION property=%s replay=%s%s" % (prop, f, "" if conf else " no-failing-input-found"))
        rc = 1
    # An obligation that could not be generated or discharged is reported as
    # such: the verifier did not accept the current source.
    for r in und:
        f = os.path.join(rep, "%s-%s-%s.json" % (prop, r["unit"], r["entry"]))
        json.dump(r, open(f, "w"), indent=1)
        print("undischarged obligations in %s/%s: %s" % (r["unit"], r["entry"], (r.get("why") or (r.get("proof") or {}).get("why")))[:1500])
        print("   bounded: %s" % (r.get("bounded") or {}).get("why"))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, f))
        rc = 1
    return rc

def main():
    if sys.argv[1] == "check": sys.exit(check(sys.argv[2]))
    if sys.argv[1] == "build":  # build <unit> <entry> <mode> <dir>: keep the generated sources
        work = sys.argv[5]; os.makedirs(work, exist_ok=True)
        j = Job(UnitDef(sys.argv[2]), sys.argv[3], work)
        hf = os.path.join(HINTS, "%s.%s.json" % (sys.argv[2], sys.argv[3]))
        d = j.build_text(sys.argv[4], json.load(open(hf)) if os.path.exists(hf) else {})
        print(d)
        print(j.native_bin(d) if sys.argv[4] == "N" else j.goto_cc(d)); sys.exit(0)
    if sys.argv[1] == "unit":
        work = tempfile.mkdtemp(prefix="nbwork-")
        try:
            ud = UnitDef(sys.argv[2])
            res = run_jobs([ud], work, entries=[x for x in sys.argv[3:] if x[0] != "-"])
        finally: shutil.rmtree(work, ignore_errors=True)
        for r in res:
            if "-v" in sys.argv: print(json.dumps(r, indent=1)[:9000])
            pr = r.get("proof") or {}; bo = r.get("bounded") or {}
            print(r["unit"], r["entry"], r["verdict"], r["wall"], "obl", pr.get("obligations"), bo.get("obligations"), {k: round(v, 1) for k, v in r["stats"].items()}, r.get("why", ""))
            if r["verdict"] != "proved":
                print("   P:", pr.get("verdict"), (pr.get("why") or "")[:600], "\n      ".join([""] + pr.get("failed", [])[:12]), pr.get("dead_covers", ""))
                print("   B:", bo.get("verdict"), (bo.get("why") or "")[:600], "\n      ".join([""] + bo.get("failed", [])[:12]), bo.get("confirmed") and bo["confirmed"]["native"], bo.get("dead_covers", ""))
                if bo.get("replays") and not bo.get("confirmed"): print("      replay:", bo["replays"][0]["native"], bo["replays"][0]["values"][:60])
            if "-i" in sys.argv:
                for k, v in (pr.get("invariants") or {}).items(): print("   ", k, "\n         ".join([""] + v))
        sys.exit(0)
main()
