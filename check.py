#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current tree.  See DESIGN.md ("How a check decides")."""
import json, os, re, subprocess, sys, time, fcntl, threading, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
REPLAYS = os.path.join(V, "replays")
CRATE_OF = lambda p: p.split("::")[0]
FAILURES = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic", "possible division", "possible bit shift", "decreases", "may fail", "could not prove", "cannot prove", "assert_by", "requires not satisfied", "recursive function", "loop invariant", "unable to prove", "not satisfied")
UNSURE = ("Resource limit", "rlimit", "timed out", "solver")

def run(cmd, timeout=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=cwd)

class Cancelled(Exception): pass

def run_until(cancel, cmd, timeout, cwd):
    """run, given up as soon as the event is set"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, start_new_session=True)
    end = time.time() + timeout
    while True:
        try: o, e = p.communicate(timeout=0.5); return subprocess.CompletedProcess(cmd, p.returncode, o, e)
        except subprocess.TimeoutExpired:
            if not cancel.is_set() and time.time() < end: continue
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            p.communicate()
            if cancel.is_set(): raise Cancelled()
            raise subprocess.TimeoutExpired(cmd, timeout)

def build(crate):
    os.makedirs(os.path.join(V, "work"), exist_ok=True)
    with open(os.path.join(V, "work", crate + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, crate))
    return (os.path.join(V, crate, "target", "release", crate), r) if r.returncode == 0 else (None, r)

def findings(pid):
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l)
        if m and m.group(1) == pid: yield m.group(2), m.group(3)

# ---------------------------------------------------------------- the deductive verifier

BASE = ["prelude", "scroll", "std_io", "indexmap", "std_collections", "string_interner", "target_lexicon", "goblin"]

class Verdict:
    def __init__(self):
        self.fn = {}          # path -> dict(status, why, props, clauses, file, line)
        self.failed = []      # dict(fn, props, message, text, clause)
        self.undecided = {}   # path -> why
        self.lost = None      # no verdict at all: why
        self.verified = 0
        self.solver_ms = 0
        self.wall = 0.0
        self.runs = 0
        self.dropped = []
        self.inlined = []
        self.probe = None
        self.cmd = ""

def trusted_scan():
    """every assumption the generated file carries: counted mechanically in the committed contract files"""
    n = dict(external_body=0, external=0, axioms=0, assume_specification=0, admit_or_assume=0)
    for f in sorted(os.listdir(os.path.join(V, "specs"))):
        t = re.sub(r"//[^\n]*", "", open(os.path.join(V, "specs", f)).read())
        n["external_body"] += len(re.findall(r"external_body", t))
        n["axioms"] += len(re.findall(r"\baxiom fn\b", t))
        n["assume_specification"] += len(re.findall(r"assume_specification", t))
        n["admit_or_assume"] += len(re.findall(r"\b(?:admit|assume)\s*\(", t))
    return n

def dependency(tier, pid):
    """the contracts assumed of goblin's encoders: is there a Kani proof of exactly the text the verifier assumes?"""
    sys.path.insert(0, os.path.join(V, "tools"))
    import conform, hashlib
    text, names, consts = conform.main()
    pj = os.path.join(V, "conform", "PROVED.json")
    d = json.load(open(pj)) if os.path.exists(pj) else {}
    ver = lambda f: re.findall(r'name = "(?:goblin|scroll|indexmap|string-interner)"\nversion = "[^"]*"', open(f).read())
    same = d.get("sha256") == hashlib.sha256(text.encode()).hexdigest() and ver(os.path.join(V, "conform/Cargo.lock")) == ver(os.path.join(V, "replay/Cargo.lock"))
    r = dict(encodings_proved_for_all_field_values=len(names) if same else 0, back_end=d.get("back_end"), constants_checked_at_compile_time=consts if same else 0,
             where="conform/: generated from specs/prelude.rs; " + ("the committed proof record is for this text" if same else "NO proof record for this text: run tools/conform.py prove"))
    if tier != "quick" and 6 <= int(pid[1:]) <= 22:
        x, b = build("conform")
        q = run([x], timeout=600) if x else None
        r["sampled_now"] = q.stdout.strip() if q and q.returncode == 0 else "FAILED: " + ((q or b).stderr[-600:])
        try: k = run(["python3", os.path.join(V, "tools/conform.py"), "check"], timeout=1500); r["proved_now"] = k.stdout.strip()[-300:] if k.returncode == 0 else "FAILED: " + k.stdout[-600:]
        except subprocess.TimeoutExpired: r["proved_now"] = "timeout"
    return r

def diagnostics(stderr):
    for l in stderr.splitlines():
        if not l.startswith("{"): continue
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("level") == "error" and d.get("spans"): yield d

def verify(pid, vx, tier, exits=(), cancel=None):
    v = Verdict()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vx-" + pid + "-")
    external, bare, nohide = {}, {}, set()
    rlimit = "100" if tier == "quick" else "400"
    try:
        for attempt in range(12):
            o, m = os.path.join(tmp, "o.rs"), os.path.join(tmp, "o.json")
            try: r = run([vx, "--repo", REPO, "--specs", os.path.join(V, "specs"), "--out", o, "--map", m, "--external", ",".join(external), "--bare", ",".join(bare), "--exits", ",".join(exits)], timeout=60)
            except subprocess.TimeoutExpired: v.lost = "extraction did not finish"; break
            if r.returncode != 0: v.lost = "extraction: " + (r.stderr.strip().splitlines() or ["failed"])[0]; break
            mp = json.load(open(m))
            v.dropped = mp["dropped"]
            line_fn = {}
            for g, f, sl, file in mp["lines"]: line_fn[g] = (f, sl, file)
            fns = {f["path"]: f for f in mp["functions"]}
            text = open(o).read()
            for n in nohide: text = re.sub(r"hide\((?:\w+::)*%s\);" % re.escape(n), "", text)
            if nohide: open(o, "w").write(text)
            src = text.split("\n")
            # the modules with functions under this property's contracts, the artifact they emit, and every lemma module these rest on
            mine = {p.split("::")[0] for p in fns if pid in fns[p].get("props", [])} | {"artifact"}
            lemmas = [f[:-3] for f in sorted(os.listdir(os.path.join(V, "specs"))) if f.endswith("_spec.rs")]
            scope = BASE + sorted(mine) + [l for l in lemmas if l.split("_")[0] in mine | {"seq", "target", "vacuity"}]
            cmd = ["verus", "--triggers-mode", "silent", "--multiple-errors", "6", "--rlimit", rlimit, "--output-json", "--time", "--error-format=json", "o.rs"] + [x for t in scope for x in ("--verify-module", t)]
            v.cmd = "vx --repo /repo --specs specs && " + " ".join(cmd)
            try: r = run_until(cancel or threading.Event(), cmd, max(1, 600 - (time.time() - t0)) if tier == "quick" else 3000, tmp)
            except subprocess.TimeoutExpired: v.lost = "the verifier did not finish"; break
            except Cancelled: v.lost = "no longer needed"; break
            v.runs += 1
            try: j = json.loads(r.stdout)
            except ValueError: j = {}
            res = j.get("verification-results", {})
            errs = list(diagnostics(r.stderr))
            # hide(..) of a function the module no longer reaches stops the verifier
            gone = set(re.findall(r"undeclared variable fuel%o!(?:\w+\.)*?(\w+)\. *'", r.stderr)) - nohide
            if gone: nohide |= gone; continue
            def owner(d):
                for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                    f = line_fn.get(s["line_start"], ("", 0, ""))
                    if s["file_name"] == "o.rs" and f[0]: return f
                return ("", 0, "")
            if not res.get("verified") or res.get("encountered-vir-error"):
                new = 0
                for d in errs:
                    f = owner(d)[0]
                    if not f: continue
                    if f in external and f not in bare: bare[f] = d["message"]; new += 1
                    elif f not in external: external[f] = d["message"]; new += 1
                if not new:
                    v.lost = "not accepted by the verifier's front end: " + (errs[0]["message"] if errs else (r.stderr.strip() or "no output")[:300]); break
                continue
            v.verified = res["verified"]
            v.solver_ms = j.get("times-ms", {}).get("total-verify", 0)
            for p, f in fns.items():
                v.fn[p] = f
                if f["status"] in ("undecided",): v.undecided[p] = external.get(p) or f["why"]
                if f["status"] == "uncontracted": v.undecided[p] = "no contract"
            for p in mp["missing"]: v.undecided[p] = "the function under this contract is gone"
            unc = {p.split("::")[-1] for p in fns if fns[p]["status"] in ("uncontracted",) or p in bare}
            probe = False
            for p, f in fns.items():
                calls = {c.split("::")[-1] for c in f.get("calls", [])} & unc
                if f["status"] == "verified" and calls: v.undecided[p] = "calls " + ", ".join(sorted(calls)) + ", which has no contract"
            v.inlined = mp.get("inlined", [])
            for d in errs:
                f, sl, file = owner(d)
                if any("vacuity_probe" in src[s["line_start"] - 1] or "VACUITY" in src[s["line_start"] - 1] for s in d["spans"] if s["file_name"] == "o.rs"): probe = True; continue
                tags = set()
                clause = ""
                for s in d["spans"]:
                    if s["file_name"] != "o.rs": continue
                    t = src[s["line_end"] - 1]
                    k = re.search(r"//#([C0-9, ]+)", t)
                    if not s["is_primary"] or "invariant" in d["message"] or "assert" in d["message"]:
                        if line_fn.get(s["line_start"], ("",))[0] == f and k: tags |= {x.strip() for x in k.group(1).split(",")}
                        if s.get("label"): clause = t.strip()
                if not f:
                    v.failed.append(dict(fn="(lemma)", props=[], message=d["message"], text=d["rendered"], clause=clause, src="")); continue
                props = sorted(tags) or fns.get(f, {}).get("props", [])
                if any(u in d["message"] for u in UNSURE): v.undecided[f] = d["message"]; continue
                calls = {c.split("::")[-1] for c in fns.get(f, {}).get("calls", [])}
                if fns.get(f, {}).get("status") == "uncontracted": v.undecided[f] = "no contract: " + d["message"]; continue
                if calls & unc: v.undecided[f] = "calls " + ", ".join(sorted(calls & unc)) + ", which has no contract"; continue
                v.failed.append(dict(fn=f, props=props, message=d["message"], text=d["rendered"], clause=clause, src=f"{file}:{sl}"))
            v.failed = [x for x in v.failed if x["fn"] not in v.undecided]
            v.probe = probe
            if not probe: v.lost = "the vacuity probe was accepted: the assumptions are contradictory"
            # a failed lemma: nothing that uses it is proved
            if any(x["fn"] == "(lemma)" for x in v.failed):
                v.lost = "a lemma over the contracts is not proved on this tree: " + [x for x in v.failed if x["fn"] == "(lemma)"][0]["message"]
                v.failed = [x for x in v.failed if x["fn"] != "(lemma)"]
            break
        else: v.lost = "no extraction the verifier's front end accepts"
    finally: shutil.rmtree(tmp, ignore_errors=True)
    v.wall = time.time() - t0
    return v

def witness(vx, v):
    """the domains of emission are not empty: specs/witness.rs is a client of the contracts alone"""
    if v.lost: return None
    tmp = tempfile.mkdtemp(prefix="vx-witness-")
    try:
        r = run([vx, "--repo", REPO, "--specs", os.path.join(V, "specs"), "--with", os.path.join(V, "specs", "witness.rs"), "--out", os.path.join(tmp, "o.rs"), "--map", os.path.join(tmp, "o.json")], timeout=60)
        if r.returncode != 0: return None
        j = json.loads(run(["verus", "--triggers-mode", "silent", "--rlimit", "100", "--output-json", "o.rs", "--verify-only-module", "witness_spec"], timeout=300, cwd=tmp).stdout)["verification-results"]
        return bool(j.get("success")) and j.get("verified", 0) >= 10
    except (subprocess.TimeoutExpired, ValueError, KeyError): return None
    finally: shutil.rmtree(tmp, ignore_errors=True)

# ---------------------------------------------------------------- concrete search (bounded)

def search(rep, props, seed, secs, tag):
    r = run([rep, "search", "--props", ",".join(props), "--seed", str(seed), "--secs", str(secs), "--out", REPLAYS, "--tag", tag], timeout=secs + 240)
    try: return json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError): return dict(evaluations=0, distinct=0, emitted=0, samples=[], found={}, broken=(r.stdout + r.stderr)[-500:])

def hunt(rep, pid, props, seed, secs, enough=lambda: False):
    """several seeds at once; stops early when the property itself is found broken"""
    tot = dict(evaluations=0, distinct=0, emitted=0, samples=[], found={})
    n, k, spent = 6, 0, 0
    for s in (max(3, secs / 10), secs / 3, secs * 0.57):
        with cf.ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda i: search(rep, props, seed * 1000 + 17 * k + i, s, f"{pid}.{i}"), range(n)))
        k += 1
        for r in rs:
            for key in ("evaluations", "distinct", "emitted"): tot[key] += r.get(key, 0)
            tot["samples"] = tot["samples"] or r["samples"]
            for p, f in r["found"].items(): tot["found"].setdefault(p, f)
        if pid in tot["found"] or enough(): break
    return tot

def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1")); tier = os.environ.get("VERIF_TIER", "quick")
    quick = tier == "quick"
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(pid + "-") or f.startswith(pid + "."): os.unlink(os.path.join(REPLAYS, f))
    with cf.ThreadPoolExecutor(2) as ex:
        bx, br = ex.submit(build, "vx"), ex.submit(build, "replay")
        (vx, _), (rep, rr) = bx.result(), br.result()
    found, note = {}, []
    with cf.ThreadPoolExecutor(2) as ex:
        fv = ex.submit(verify, pid, vx, tier) if vx else None
        if rep: s = search(rep, [pid], seed, 4 if quick else 240, pid)
        else: s = dict(evaluations=0, distinct=0, emitted=0, samples=[], found={}); note.append("the replay driver does not build against this tree: " + rr.stderr[-400:])
        v = fv.result() if fv else Verdict()
    if not vx: v.lost = "the extractor does not build"
    mine = {p: f for p, f in v.fn.items() if pid in f["props"]}
    gone = [p for p in v.undecided if p in mine or pid in spec_props().get(p, [])]
    failed = [x for x in v.failed if pid in x["props"]]
    found.update(s["found"])
    def add(t):
        for k in ("evaluations", "distinct", "emitted"): s[k] = s.get(k, 0) + t[k]
        s["samples"] = s["samples"] or t["samples"]
        found.update(t["found"])
    if failed and not found:
        # a failing input for the failed obligations and, beside it, the proof text once more where the code leaves a body early
        props, stop = sorted({p for x in failed for p in x["props"]} | {pid}), threading.Event()
        with cf.ThreadPoolExecutor(1) as ex:
            fw = ex.submit(verify, pid, vx, tier, sorted({x["fn"] for x in failed}), stop)
            def settled(): return fw.done() and clean(fw.result())
            def clean(w): return not w.lost and not set(w.undecided) - set(v.undecided) and not [x for x in w.failed if pid in x["props"]]
            if rep:
                add(hunt(rep, pid, props, seed, 60 if quick else 400, settled))
                if pid not in found and not settled(): add(hunt(rep, pid, props, seed + 7, 90 if quick else 400, settled))
            if found: stop.set()
            w = fw.result()
        if not found and clean(w): v, failed = w, []
        hunted = True
    else: hunted = False
    level = "proof"
    roots = [r for r in roots_of(pid) if r not in mine or mine[r]["status"] != "verified"]
    if v.lost or gone or not mine or roots: level = "exploration"
    # what the verifier could not decide is left to the bounded search: give it more
    if (level != "proof" or failed) and not hunted and pid not in found and rep: add(hunt(rep, pid, sorted({p for x in failed for p in x["props"]} | {pid}), seed + 7, 90 if quick else 400))
    viol = None
    if pid in found: viol = (found[pid]["file"], "")
    elif failed and not found:
        f = os.path.join(REPLAYS, f"{pid}-obligation.txt")
        with open(f, "w") as o:
            o.write(f"property {pid}: the verifier rejects an obligation generated from the current tree; no failing input found in {s['evaluations']} histories\n")
            o.write("reproduce: python3 check.py " + pid + "\n\n")
            for x in failed: o.write(f"obligation: {x['fn']} ({x['src']}): {x['message']}\n  clause: {x['clause']}\n{x['text']}\n")
        viol = (f, " no-failing-input-found")
    elif failed: note.append("failed obligations shared with " + ",".join(sorted(found)) + ", of which a failing input shows a violation of the latter only")
    if rep:
        for case, what in findings(pid):
            o = run([rep, "run", os.path.join(V, case), "--known"]).stdout
            if any(l.startswith(pid + " ") for l in o.splitlines()): print(f"KNOWN-FINDING: property={pid} {what} ({case})")
    ob = sum(f["clauses"] + 1 for f in mine.values())
    bad = {x["fn"] for x in failed}
    und = sum(mine[p]["clauses"] + 1 for p in mine if p in v.undecided) if not v.lost else ob
    dis = max(0, ob - und - len(failed))
    cov = dict(evaluations=s["evaluations"], distinct_nontrivial=s["distinct"], rule="bounded stand-in and replay source: random API histories run against the real crate and judged by an independent oracle; distinct by text", samples=s["samples"] or ["exhaustive attribute enumeration"],
        obligations=ob, discharged=dis, checker_cmd=v.cmd, trusted_base=TRUSTED + [f"mechanical count in specs/: {k} {n}" for k, n in trusted_scan().items()],
        functions_under_contract=sorted(p for p in mine if mine[p]["status"] == "verified" and p not in v.undecided and p not in bad),
        functions_bounded_only=dict({p: "no contract states this property for it yet" for p in roots}, **{p: v.undecided[p] for p in gone}), helpers_inlined_into_contracted_functions=v.inlined, whole_file_verified_items=v.verified, whole_file_failed=[f"{x['fn']}: {x['message']}" for x in v.failed],
        back_end="Verus 0.2026.09.13 / Z3", solver_ms=v.solver_ms, verifier_runs=v.runs, verifier_wall_s=round(v.wall, 2), vacuity_probe_rejected=v.probe, dependency_contracts=dependency(tier, pid), **(dict(emission_domain_witness_accepted=witness(vx, v)) if pid == "C05" and vx else {}), no_verdict=v.lost, not_extracted=v.dropped)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME + note, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for x in failed: print(f"failed obligation: {x['fn']} ({x['src']}): {x['message']} {x['clause']}")
    for p in gone: print(f"undecided, bounded only: {p}: {v.undecided[p]}")
    if v.lost: print("no verdict from the verifier, bounded only: " + v.lost)
    for r in roots:
        if r not in gone: print(f"bounded only: {r} has no contract for {pid}")
    for n in note: print(n)
    if viol:
        if pid in found: print(found[pid]["msg"])
        print(f"VIOLATION property={pid} replay={viol[0]}{viol[1]}"); sys.exit(1)
    print(f"{pid}: {dis}/{ob} obligations in {len(mine)} functions, {s['evaluations']} histories, {time.time() - t0:.1f} s")

def roots_of(pid):
    """the function whose postcondition is the property itself"""
    n = int(pid[1:])
    return (["elf::to_bytes"] if 6 <= n <= 15 and n != 12 else []) + (["mach::to_bytes"] if 15 <= n <= 21 else []) + (["elf::to_bytes", "mach::to_bytes"] if n in (12, 22) else []) + (["artifact::Artifact::emit_as"] if n == 5 else [])

_sp = None
def spec_props():
    global _sp
    if _sp is None:
        _sp = {}
        for f in os.listdir(os.path.join(V, "specs")):
            if f.endswith(".spec"):
                for l in open(os.path.join(V, "specs", f)):
                    m = re.match(r"@fn (\S+(?: [^#]*)?)\s*#(.*)", l)
                    if m:
                        n, ps = m.group(1).strip(), [x.strip() for x in m.group(2).split(",")]
                        a = re.match(r"(.*)\{(.*)\}(.*)", n)
                        for q in ([a.group(1) + x.strip() + a.group(3) for x in a.group(2).split(",")] if a else [n]): _sp[q] = ps
    return _sp

TRUSTED = [
    "Verus and Z3",
    "vx: the mechanical extraction of /repo/src into Verus (rules in DESIGN.md)",
    "specs/prelude.rs: assumed contracts of std, indexmap, string-interner, target-lexicon, goblin and scroll",
]
ASSUME = [
    "allocation succeeds and total emitted size stays below 2^62 bytes",
    "the dependencies behave as the shim contracts in specs/prelude.rs say",
]
if __name__ == "__main__": main()
