#!/usr/bin/env python3
"""Driver of the solver-based checks.

  vx.py check ID [quick|thorough]   decide one property (what MANIFEST.json registers)
  vx.py setup                       build the engine
  vx.py hints HARNESS...            development: work out which sources of /repo a harness needs
  vx.py all [quick|thorough]        every check, one after another

Everything is regenerated from /repo's working tree on every run: the sources a harness needs are compiled to LLVM bitcode
together with the harness, linked, and executed symbolically by engine/ (vex). A violation is replayed against a native build of
the same bitcode before it is reported.
"""
import sys, os, re, json, subprocess, hashlib, shutil, tempfile, time, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
CACHE = os.environ.get("VX_CACHE")          # development only: bitcode cache
JOBS = int(os.environ.get("VX_JOBS", "8"))
CLANG, LINK, NM = "clang++", "llvm-link-18", "llvm-nm-18"
if not shutil.which(LINK): LINK = "/usr/lib/llvm-18/bin/llvm-link"
if not shutil.which(NM): NM = "/usr/lib/llvm-18/bin/llvm-nm"
FLAGS = ["-std=c++23", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-strict-aliasing", "-fPIC", "-fsemantic-interposition", "-pthread",
         "-fno-ident", "-gline-tables-only" if False else "-g0", "-Wno-everything", "-I" + VERIF + "/rt/shim", "-include", VERIF + "/rt/pre.h", "-emit-llvm", "-c"]
RTFLAGS = ["-std=c++23", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-Wno-everything", "-emit-llvm", "-c"]


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def includes():
    d = sorted(glob.glob(REPO + "/middleware/*/include") + glob.glob(REPO + "/middleware/*/*/include") + glob.glob(REPO + "/thirdparty/*/include"))
    return ["-I" + x for x in d if "/unittest/" not in x]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ building

def engine(work):
    """the engine binary: built once per sandbox when that is possible"""
    srcs = sorted(glob.glob(VERIF + "/engine/*.cpp") + glob.glob(VERIF + "/engine/*.h") + [VERIF + "/engine/Makefile"])
    h = hashlib.sha256()
    for s in srcs: h.update(open(s, "rb").read())
    out = os.path.join(VERIF, "build", h.hexdigest()[:16])
    binary = out + "/vex"
    if os.path.exists(binary): return binary
    os.makedirs(out, exist_ok=True)
    r = sh(["make", "-j8", "-C", VERIF + "/engine", "OUT=" + out])
    if r.returncode or not os.path.exists(binary): die("engine does not build\n" + r.stdout[-3000:])
    return binary


def compile_one(source, out, work, extra=(), flags=None):
    src = source
    cmd = [CLANG] + (flags or FLAGS) + list(extra) + (includes() if flags is None else []) + [src, "-o", out]
    if CACHE:
        key = hashlib.sha256((source + "\0" + " ".join(cmd[:-1]).replace(work, "")).encode()).hexdigest()[:24]
        dep, bc = f"{CACHE}/{key}.d", f"{CACHE}/{key}.bc"
        if os.path.exists(dep) and os.path.exists(bc):
            t = os.path.getmtime(bc)
            deps = open(dep).read().split()
            if all(os.path.exists(x) and os.path.getmtime(x) < t for x in deps):
                shutil.copyfile(bc, out); return None
        os.makedirs(CACHE, exist_ok=True)
        r = sh(cmd + ["-MMD", "-MF", dep + ".raw"])
        if r.returncode: return f"{source}:\n{r.stdout[-6000:]}"
        raw = open(dep + ".raw").read().replace("\\\n", " ").split(":", 1)[1].split()
        open(dep, "w").write("\n".join([x for x in raw if not x.startswith("/usr/") and not x.startswith(work)] + [source]))
        shutil.copyfile(out, bc)
        return None
    r = sh(cmd)
    return f"{source}:\n{r.stdout[-6000:]}" if r.returncode else None


def stub_flags(harness):
    """functions the harness replaces must not be inlined before that: (identifiers of the name, compiler flags)"""
    seen, todo, names = set(), [harness], set()
    while todo:
        h = todo.pop()
        if h in seen or not os.path.exists(h): continue
        seen.add(h)
        text = open(h).read()
        names |= set(re.findall(r"__stub_(\w+)", text))
        todo += [VERIF + "/harness/" + i for i in re.findall(r'#include "([^"]+)"', text)]
    r = []
    for n in sorted(names):
        ids, rest = [], n[2:].lstrip("NK")
        while True:
            m = re.match(r"(\d+)", rest)
            if not m: break
            k = int(m.group(1)); rest = rest[len(m.group(1)):]
            ids.append(rest[:k]); rest = rest[k:]
            if rest.startswith("I"): break
        r.append((ids, ["-mllvm", f"-force-attribute={n}:noinline"]))
    return r


def all_sources():
    r = []
    for f in sorted(glob.glob(REPO + "/middleware/**/*.cpp", recursive=True) + glob.glob(REPO + "/thirdparty/*/source/**/*.cpp", recursive=True)):
        rel = os.path.relpath(f, REPO)
        if "/unittest/" in rel or "/example/" in rel or "/build/" in rel or os.path.basename(rel) == "main.cpp" or "/documentation/" in rel: continue
        r.append(rel)
    return r


def compile_all(sources, work, stubs=()):
    """sources: paths relative to REPO -> dict rel -> bc"""
    out, errs = {}, []
    def job(rel):
        o = os.path.join(work, "o", rel.replace("/", "__") + ".bc")
        os.makedirs(os.path.dirname(o), exist_ok=True)
        text = open(os.path.join(REPO, rel), errors="replace").read()
        extra = [f for ids, flags in stubs if all(i in text for i in ids if i not in ("casual", "common")) for f in flags]
        return rel, o, compile_one(os.path.join(REPO, rel), o, work, extra)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rel, o, e in ex.map(job, sources):
            if e: errs.append(e)
            else: out[rel] = o
    return out, errs


REPOSYM = re.compile(r"6casual|^casual_|^tp[a-z]+$|^tx_|^CASUAL|N3sql|3sql8database")


def undefined(bc):
    r = sh([NM, "--undefined-only", "--format=just-symbols", bc])
    return {l.strip() for l in r.stdout.splitlines() if l.strip()}


def defined(bc):
    r = sh([NM, "--defined-only", "--extern-only", "--format=just-symbols", bc])
    return {l.strip() for l in r.stdout.splitlines() if l.strip()}


class Build:
    def __init__(self, harness, tier, work, vex):
        self.harness, self.tier, self.work, self.vex = harness, tier, work, vex
        self.name = os.path.basename(harness)[:-4]
        os.makedirs(work, exist_ok=True)
        self.meta = parse_meta(harness)

    def start(self):
        """compile harness, runtime and hinted sources"""
        w = self.work
        hints = json.load(open(VERIF + "/hints.json")) if os.path.exists(VERIF + "/hints.json") else {}
        srcs = [s for s in hints.get(self.name, []) if os.path.exists(os.path.join(REPO, s))]
        tierflag = "-DVEX_TIER=" + ("1" if self.tier == "thorough" else "0")
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(compile_one, self.harness, w + "/harness.bc", w, [tierflag, "-fno-access-control", "-I" + VERIF + "/rt", "-I" + VERIF + "/harness"] + self.meta["flags"])
            b = ex.submit(compile_one, VERIF + "/rt/rt.cpp", w + "/rt.bc", w, (), RTFLAGS)
            self.objs, errs = compile_all(srcs, w, stub_flags(self.harness))
            for e in (a.result(), b.result()):
                if e: errs.append(e)
        return errs

    def link(self):
        w = self.work
        r = sh([LINK, w + "/harness.bc"] + list(self.objs.values()) + ["-o", w + "/l.bc"])
        if r.returncode: die("llvm-link: " + r.stdout[-3000:])
        r = sh([self.vex, "prep", w + "/l.bc", w + "/p.bc"])
        if r.returncode: die("prep: " + r.stdout[-3000:])
        return undefined(w + "/p.bc")

    def resolve(self, verbose=False):
        """link; when something of the repository is missing, look for it in every source of the repository"""
        missing = {s for s in self.link() if REPOSYM.search(s)}
        table = None
        self.added = []
        for _ in range(40):
            if not missing: break
            if table is None:
                rest = [s for s in all_sources() if s not in self.objs]
                self.pool, _errs = compile_all(rest, self.work, stub_flags(self.harness))
                table = {}
                with cf.ThreadPoolExecutor(JOBS) as ex:
                    for rel, d in zip(self.pool, ex.map(defined, self.pool.values())):
                        for s in d: table.setdefault(s, rel)
            add = sorted({table[s] for s in missing if s in table and table[s] not in self.objs})
            if verbose: print("  +", " ".join(add), flush=True)
            if not add: break
            for a in add: self.objs[a] = self.pool[a]; self.added.append(a)
            missing = {s for s in self.link() if REPOSYM.search(s)}
        self.unresolved = sorted(missing)
        w = self.work
        r = sh([LINK, "--only-needed", w + "/p.bc", w + "/rt.bc", "-o", w + "/x.bc"])
        if r.returncode: die("llvm-link rt: " + r.stdout[-3000:])

    def prebuild(self):
        """the native build, while the engine runs"""
        self.pre = cf.ThreadPoolExecutor(1).submit(self._native, False)

    def native(self, asan=False):
        if not asan and getattr(self, "pre", None): return self.pre.result()
        return self._native(asan)

    def _native(self, asan=False):
        w = self.work
        exe = w + ("/replay.asan" if asan else "/replay")
        if os.path.exists(exe): return exe
        src = w + "/p.bc"
        extra = []
        if asan:
            r = sh([self.vex, "prep", w + "/l.bc", w + "/pa.bc", "--asan"])
            src = w + "/pa.bc"
            extra = ["-fsanitize=address"]
        r = sh([CLANG, "-O0", "-Wno-everything", "-rdynamic", "-fPIC"] + extra + [src, "-x", "c++", "-std=c++20", VERIF + "/rt/native.cpp", "-o", exe, "-pthread", "-ldl",
                "-Wl,--unresolved-symbols=ignore-all"] + ["-l" + l for l in self.meta["libs"]])
        if r.returncode: die("native build: " + r.stdout[-3000:])
        return exe


def parse_meta(harness):
    text = open(harness).read()
    meta = {"bounds": [], "outside": [], "stubs": [], "flags": [], "libs": [], "timeout": 600}
    for m in re.finditer(r"^//@ (\w+) (.*)$", text, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k in ("bounds", "outside", "stubs"): meta[k].append(v)
        elif k in ("flags", "libs"): meta[k] += v.split()
        elif k == "timeout": meta[k] = int(v)
        else: die(f"{harness}: unknown metadata {k}")
    entries = re.findall(r"^VEX_ENTRY\( *(\w+)\)", text, re.M)
    meta["thorough"] = set(re.findall(r"^VEX_ENTRY_THOROUGH\( *(\w+)\)", text, re.M))
    meta["entries"] = entries
    body = re.sub(r"//.*", "", text)
    meta["covers"] = set(re.findall(r'vex_cover\( *"([^"]+)"', body))
    meta["asserts"] = set(re.findall(r'vex_assert\((?:[^;]|\n)*?, *"([^"]+)" *\) *[;)}]', body))
    meta["optional"] = set()
    for m in re.finditer(r"^//@@ optional (.*)$", text, re.M): meta["optional"] |= set(m.group(1).split())
    return meta


# ------------------------------------------------------------------ running

def run_entry(build, entry, tier, timeout, seed, known, jobs=JOBS):
    out = os.path.join(build.work, "run-" + entry)
    os.makedirs(out)
    cmd = [build.vex, "run", build.work + "/x.bc", "--entry", "vex_entry_" + entry, "--jobs", str(jobs), "--timeout", str(timeout), "--out", out, "--seed", str(seed), "--samples", "6"]
    for k in known: cmd += ["--known", k["kind"], k["name"], k["where"]]
    t = time.time()
    with open(out + "/log", "w") as log:
        r = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT)
    total = {"entry": entry, "wall": time.time() - t, "rc": r.returncode, "violations": [], "samples": [], "files": 0}
    for f in glob.glob(out + "/res.*.json"):
        try: j = json.load(open(f))
        except Exception as e: total["rc"] = 5; continue
        total["files"] += 1
        for k, v in j.items():
            if isinstance(v, dict):
                d = total.setdefault(k, {})
                for a, n in v.items(): d[a] = d.get(a, 0) + n
            elif isinstance(v, list): total[k] += v
            elif k in ("max_query_s", "maxdepth"): total[k] = max(total.get(k, 0), v)
            else: total[k] = total.get(k, 0) + v
    total["log"] = open(out + "/log", errors="replace").read()
    if os.environ.get("VX_VERBOSE"):
        for m in re.finditer(r"^\[incomplete\].*\n.*$", total["log"], re.M): print(m.group(0), flush=True)
    return total


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, w, v in inputs: f.write(f"{n}\t{w}\t{v}\n")


def replay(exe, entry, inputs_file, scratch):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=23:alloc_dealloc_mismatch=1:detect_stack_use_after_return=0"
    try:
        r = subprocess.run([exe, "vex_entry_" + entry, inputs_file], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60, cwd=scratch, env=env)
    except subprocess.TimeoutExpired as e:
        return None, "TIMEOUT", ""
    return r.returncode, r.stdout, r.stderr


def confirm(build, entry, v, path):
    """replay one counterexample against the real code. -> (confirmed, text)"""
    scratch = tempfile.mkdtemp(dir=build.work)
    if v["kind"] == "memory":
        rc, out, err = replay(build.native(asan=True), entry, path, scratch)
        ok = "ERROR: AddressSanitizer" in err or (rc is not None and rc < 0)
        return ok, (out[-800:] + "\n" + err[:1500])
    rc, out, err = replay(build.native(), entry, path, scratch)
    if v["kind"] == "assert": return rc == 5 and ("ASSERT " + v["name"]) in out, out[-1500:] + err[-500:]
    # abort, terminate, uncaught exception, unreachable, arithmetic
    ok = "TERMINATE" in out or (rc is not None and rc < 0)
    if not ok:
        rc, out, err = replay(build.native(asan=True), entry, path, scratch)
        ok = "ERROR: AddressSanitizer" in err or "TERMINATE" in out or (rc is not None and rc < 0)
    return ok, f"rc {rc}\n" + out[-1500:] + err[-500:]


def load_known(prop):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def is_known(known, harness, entry, v):
    for k in known:
        if k["kind"] == v["kind"] and k["name"] == v["name"] and k["where"] in v["where"] and k.get("entry", entry) == entry and k.get("harness", harness) == harness:
            return k
    return None


def harnesses(prop):
    return sorted(glob.glob(f"{VERIF}/harness/{prop}_*.cpp"))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VX_BUDGET", "780" if tier == "quick" else "14400"))
    work = tempfile.mkdtemp(prefix="vx-" + prop + "-")
    try:
        return check_in(prop, tier, work, seed, t0, budget)
    finally:
        if not os.environ.get("VX_KEEP"): shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)


def check_in(prop, tier, work, seed, t0, budget):
    vex = engine(work)
    hs = harnesses(prop)
    only = os.environ.get("VX_ONLY")
    if not hs: die("no harness for " + prop)
    known = load_known(prop)
    errors, reported, knownhit, runs, validated, notes = [], [], {}, [], 0, []
    builds = []
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    repdir = VERIF + "/evidence/replay-" + prop
    shutil.rmtree(repdir, ignore_errors=True)
    unconfirmed = []
    for h in hs:
        b = Build(h, tier, os.path.join(work, os.path.basename(h)[:-4]), vex)
        e = b.start()
        if e: die("does not compile\n" + "\n".join(e))
        b.resolve()
        builds.append(b)
        b.prebuild()
        if b.added: notes.append(f"{b.name}: sources found by symbol: " + " ".join(b.added))
        entries = b.meta["entries"] + (sorted(b.meta["thorough"]) if tier == "thorough" else [])
        if only: entries = [x for x in entries if x in only.split(",")]
        seen = {"covers": set(), "asserts": set()}
        for entry in entries:
            left = budget - (time.time() - t0)
            if left < 5: errors.append(f"{b.name}/{entry}: no time left"); continue
            k = [x for x in known if x.get("harness", b.name) == b.name and x.get("entry", entry) == entry]
            r = run_entry(b, entry, tier, min(left, b.meta["timeout"] if tier == "quick" else left), seed, k)
            r["harness"] = b.name
            runs.append(r)
            seen["covers"] |= set(r.get("covers", {})); seen["asserts"] |= set(r.get("asserts", {}))
            if os.environ.get("VX_VERBOSE"):
                print(f"  {b.name}/{entry}: paths {r.get('paths')} assumed {r.get('assumed')} instrs {r.get('instrs')} z3 {r.get('z3')} solver {r.get('solver_s', 0):.1f}s wall {r['wall']:.1f}s viol {len(r['violations'])} incomplete {r.get('incomplete')}", flush=True)
            new = []
            for v in r["violations"]:
                f = is_known(known, b.name, entry, v)
                if f: knownhit[f["id"]] = f
                else: new.append(v)
            # each kind of violation: confirm by replay
            keys = {}
            for v in new: keys.setdefault((v["kind"], v["name"], v["where"].split(" <- ")[0]), []).append(v)
            for key, vs in keys.items():
                ok = False
                for i, v in enumerate(vs[:3]):
                    os.makedirs(repdir, exist_ok=True)
                    p = f"{repdir}/{b.name}-{entry}-{len(os.listdir(repdir))}.txt"
                    write_inputs(p, v["inputs"])
                    ok, text = confirm(b, entry, v, p)
                    with open(p, "a") as fo:
                        fo.write(f"\n# property {prop}, harness {b.name}, entry {entry}\n# {v['kind']}: {v['name']}\n# at {v['where']}\n# replay against the real code: {'confirmed' if ok else 'NOT confirmed'}\n")
                        fo.write("".join("# | " + l + "\n" for l in text.splitlines()))
                    if ok:
                        reported.append((v, p, entry, b.name)); break
                if not ok: unconfirmed.append((key, p, entry))
            stopped_by_violation = bool(new)
            if r["rc"] == 3: errors.append(f"{b.name}/{entry}: static initialisation did not complete: {r['log'][-800:]}")
            elif r["rc"] != 0: errors.append(f"{b.name}/{entry}: engine ended with {r['rc']}: {r['log'][-800:]}")
            if not stopped_by_violation:
                for what, n in r.get("incomplete", {}).items(): errors.append(f"{b.name}/{entry}: incomplete: {what} ({n})")
            if r.get("paths", 0) == 0 and not new: errors.append(f"{b.name}/{entry}: no complete path")
            # recorded executions of the engine against the native build of the same code
            if not new and r["samples"]:
                exe = b.native()
                sc = tempfile.mkdtemp(dir=b.work)
                for i, s in enumerate(r["samples"][:24]):
                    p = f"{sc}/in{i}"
                    write_inputs(p, s["inputs"])
                    rc, out, err = replay(exe, entry, p, sc)
                    obs = [l[4:].rsplit(" ", 1) for l in out.splitlines() if l.startswith("OBS ")]
                    exp = [[n, str(v)] for n, v in s["obs"]]
                    if rc != 0 or obs != exp:
                        errors.append(f"{b.name}/{entry}: the engine's execution differs from the native one: rc {rc} observed {obs[:12]} expected {exp[:12]} {out[-300:]} {err[-300:]} inputs {s['inputs'][:40]}")
                        if os.environ.get("VX_KEEP"): print("differs:", p)
                        break
                    validated += 1
        if not only and not reported:
            opt = b.meta["optional"]
            for n in sorted(b.meta["covers"] - seen["covers"] - opt): errors.append(f"{b.name}: vacuous: cover '{n}' not reached")
            for n in sorted(b.meta["asserts"] - seen["asserts"] - opt): errors.append(f"{b.name}: vacuous: assertion '{n}' never evaluated")
    wall = time.time() - t0
    fun = {}
    for r in runs:
        for f, n in r.get("functions", {}).items():
            if REPOSYM.search(f): fun[f] = fun.get(f, 0) + n
    names = list(fun)
    dem = sh(["c++filt"], input="\n".join(names)).stdout.split("\n") if names else []
    functions = sorted(re.sub(r"\(.*", "", d) for d in dem if d and "vex_entry" not in d and not d.startswith("std::"))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r.get("states", 0) for r in runs),
            "transitions": sum(r.get("instrs", 0) for r in runs),
            "traces_validated_against_impl": validated,
            "samples": [{"entry": r["entry"], "inputs": s["inputs"][:60], "observed": s["obs"][:40]} for r in runs for s in r["samples"][:2]][:24],
            "paths_complete": sum(r.get("paths", 0) for r in runs),
            "paths_outside_assumptions": sum(r.get("assumed", 0) for r in runs),
            "solver_queries": sum(r.get("queries", 0) for r in runs),
            "solver_calls_z3": sum(r.get("z3", 0) for r in runs),
            "solver_seconds": round(sum(r.get("solver_s", 0) for r in runs), 3),
            "solver_unknown": sum(r.get("unknown", 0) for r in runs),
            "longest_query_seconds": round(max([r.get("max_query_s", 0) for r in runs] + [0]), 3),
            "assertions_evaluated": {r["harness"] + "/" + r["entry"]: r.get("asserts", {}) for r in runs},
            "assertions_decided_by_query": {r["harness"] + "/" + r["entry"]: r.get("assertq", {}) for r in runs},
            "covers_reached": {r["harness"] + "/" + r["entry"]: r.get("covers", {}) for r in runs},
            "bounds": {b.name: b.meta["bounds"] for b in builds},
            "outside": {b.name: b.meta["outside"] for b in builds},
            "modelled": {b.name: b.meta["stubs"] for b in builds},
            "functions_encoded_count": len(functions),
            "functions_encoded": functions[:400],
            "sources_encoded": {b.name: sorted(b.objs) for b in builds},
            "exhaustive": not errors and not reported,
            "entries": [{"entry": r["harness"] + "/" + r["entry"], "paths": r.get("paths", 0), "wall_s": round(r["wall"], 1)} for r in runs],
            "notes": notes,
        },
        "assumptions": sorted({x for b in builds for x in b.meta["stubs"] + b.meta["outside"]}) + ["clang 18 -O1 LLVM IR of the sources stands for what gcc builds", "one thread; pthread calls succeed at once", "z3 4.8.12 and the engine in /verif/engine"],
        "wall_s": round(wall, 1), "violations": len(reported),
        "known_findings": sorted(knownhit), "errors": errors[:40], "unconfirmed": [str(u) for u in unconfirmed],
    }
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    for k in known:
        if k["id"] in knownhit: print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else: print(f"note: listed finding {k['id']} was not seen in this run")
    if reported:
        for v, p, entry, name in reported:
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  {name}/{entry}: {v['kind']}: {v['name']}\n  at {v['where'][:600]}")
        for u in unconfirmed: print("  also, not confirmed by replay:", u)
        return 1
    if unconfirmed:
        for (kind, name, where), p, entry in unconfirmed: print(f"ERROR: {entry}: counterexample not confirmed by replay: {kind} {name} at {where} ({p})")
        return 2
    if errors:
        for e in errors[:20]: print("ERROR: " + e)
        return 2
    print(f"OK property={prop} tier={tier} paths={ev['coverage']['paths_complete']} queries={ev['coverage']['solver_queries']} validated={validated} wall={wall:.0f}s")
    return 0


def hints(names):
    work = tempfile.mkdtemp(prefix="vx-hints-")
    vex = engine(work)
    path = VERIF + "/hints.json"
    allh = json.load(open(path)) if os.path.exists(path) else {}
    for n in names:
        h = n if n.endswith(".cpp") else f"{VERIF}/harness/{n}.cpp"
        b = Build(h, "quick", os.path.join(work, os.path.basename(h)[:-4]), vex)
        old = allh.get(b.name, [])
        if "--keep" not in sys.argv: allh[b.name] = []
        json.dump(allh, open(path, "w"), indent=1, sort_keys=True)
        e = b.start()
        if e: allh[b.name] = old; json.dump(allh, open(path, "w"), indent=1, sort_keys=True); die("\n".join(e))
        b.resolve(verbose=True)
        allh[b.name] = sorted(b.objs)
        print(b.name, len(b.objs), "sources; unresolved:", b.unresolved)
        json.dump(allh, open(path, "w"), indent=1, sort_keys=True)
    shutil.rmtree(work, ignore_errors=True)


def props():
    return sorted({re.match(r"([A-Z]\d+)_", os.path.basename(h)).group(1) for h in glob.glob(VERIF + "/harness/[A-Z][0-9]*_*.cpp")})


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    if cmd == "setup": print(engine("/tmp"))
    elif cmd == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[2], tier))
    elif cmd == "hints": hints([a for a in sys.argv[2:] if not a.startswith("--")])
    elif cmd == "all":
        bad = 0
        for p in props():
            rc = check(p, sys.argv[2] if len(sys.argv) > 2 else "quick")
            bad |= rc != 0
        sys.exit(bad)
    else: die(__doc__)
