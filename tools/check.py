#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]

Decides one property: extracts the functions it depends on from /repo, attaches the contracts in
/verif/contracts, has Verus discharge every obligation, and runs the bounded counterexample search
(/verif/harness) against the compiled crate.  See DESIGN.md, "How a check decides".
"""
import json, os, re, shutil, subprocess, sys, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS
import fallback_notes

REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, ".build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


def registry():
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    base = os.path.join(home, "registry", "src")
    for d in sorted(os.listdir(base)):
        if os.path.isdir(os.path.join(base, d, "inplace-vec-builder-0.1.1")):
            return os.path.join(base, d)
    return os.path.join(base, sorted(os.listdir(base))[0])


def install(src, dst):
    """copy an executable; done by another process, so that no file descriptor open for writing can be inherited by a concurrently started one"""
    subprocess.run(["cp", "--", src, dst], check=True)


def retry_busy(f):
    for k in range(20):
        try:
            return f()
        except OSError as ex:
            if ex.errno != 26 or k == 19:
                raise
            time.sleep(0.25)


def sh(cmd, cwd=None, timeout=None, env=None):
    return retry_busy(lambda: sh1(cmd, cwd, timeout, env))


def sh1(cmd, cwd, timeout, env):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode("utf8", "replace") if isinstance(x, bytes) else (x or "")
        return -999, d(e.stdout), d(e.stderr)


def cargo_env(target):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def build_vx():
    t = os.path.join(BUILD, "vx")
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "extractor"), env=cargo_env(t), timeout=600)
    b = os.path.join(t, "debug", "vx")
    if rc != 0 or not os.path.exists(b):
        raise RuntimeError("extractor does not build: " + e[-2000:])
    return b


def build_harness():
    src = os.path.join(VERIF, "harness")
    t = os.path.join(BUILD, "harness")
    if REPO != "/repo":
        src2 = os.path.join(BUILD, "harness-src")
        shutil.rmtree(src2, ignore_errors=True)
        shutil.copytree(src, src2, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(src2, "Cargo.toml")
        s = open(p).read().replace('"/repo"', json.dumps(REPO))
        open(p, "w").write(s)
        src = src2
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], cwd=src, env=cargo_env(t), timeout=800)
    b = os.path.join(t, "debug", "harness")
    if rc != 0 or not os.path.exists(b):
        return None, e[-4000:]
    return b, ""


# functions whose contract says they may never be called (requires false); every caller is checked against that
VAC_OK = {("Converter for NoConverter", "convert")}


# ---- verification of one unit -------------------------------------------------------------------
class Unit:
    def __init__(self, name):
        self.name = name
        self.externals = []       # functions whose body is out of reach on this tree
        self.skips = []
        self.problems = []        # why
        self.rejected = []        # [{fn, tag, msg, clause, out}]
        self.unknown = []         # rlimit / internal
        self.dead = None          # unit could not be verified at all
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.fns = []
        self.trusted = []
        self.vac_bad = []
        self.vac_n = 0
        self.cmd = ""
        self.functions_ok = 0


def locate(fmap, tags, spans):
    """(function entry | None, tag) an error belongs to"""
    def score(s):
        lab = s.get("label") or ""
        return 1 if lab.startswith("failed") else 0
    best = None
    for s in sorted(spans, key=score):
        l = s["line_start"]
        for f in fmap:
            if f["out_start"] <= l <= f["out_end"] and not f["decl"]:
                return f, f["tag"], l
        if best is None:
            best = l
    tag = "base"
    for line, t in tags:
        if best is not None and line <= best:
            tag = t
    return None, tag, best


def run_verus(rs, extra, timeout):
    cmd = ["verus", os.path.basename(rs), "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json"] + extra
    rc, o, e = sh(cmd, cwd=os.path.dirname(rs), timeout=timeout)
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    out = None
    try:
        out = json.loads(o)
    except ValueError:
        m = o.find("{")
        try:
            out = json.loads(o[m:]) if m >= 0 else None
        except ValueError:
            out = None
    return rc, out, diags, e


def verify_unit(vx, name, work, reg, extra, timeout, vacuity=True):
    u = Unit(name)
    tpl = os.path.join(VERIF, "contracts", name + ".vrs")
    rs = os.path.join(work, name + ".rs")
    mp = os.path.join(work, name + ".json")
    for attempt in range(12):
        cmd = [vx, tpl, rs, mp, "--repo", REPO, "--dep", reg]
        if u.externals:
            cmd += ["--external", ",".join(u.externals)]
        if u.skips:
            cmd += ["--skip", ",".join(u.skips)]
        rc, o, e = sh(cmd, timeout=120)
        if rc != 0:
            m = re.search(r"VX-ERROR (.*)", o + e)
            ml = re.search(r"VX-ERROR anchor-lost ([^|]*)\|([^|]*)\|([^|\n]*)", o + e)
            if ml and ml.group(2) not in ("struct", "head", "types"):
                k = "|".join(x for x in ml.groups()).strip()
                if k not in u.skips:
                    u.skips.append(k)
                    u.problems.append({"fn": k, "tag": "*", "why": "function not found in the source"})
                    continue
            u.dead = "extraction: " + (m.group(1) if m else (o + e)[-400:])
            return u
        j = json.load(open(mp))
        u.fns, tags = j["functions"], j["tags"]
        src = open(rs).read().splitlines()
        rc, out, diags, err = run_verus(rs, extra, timeout)
        if out is None or "verification-results" not in (out or {}):
            fe = True
        else:
            vr = out["verification-results"]
            fe = vr.get("encountered-vir-error") or ("verified" not in vr) or (vr["verified"] == 0 and vr.get("errors", 0) == 0)
        errs = [d for d in diags if d.get("level") == "error" and d.get("spans")]
        if rc == -999:
            u.dead = "verifier timeout"
            return u
        if fe:
            new = []
            for d in errs:
                f, tag, l = locate(u.fns, tags, d["spans"])
                if f is not None and not f["external"]:
                    k = "%s|%s|%s" % (f["file"], f["sel"], f["name"])
                    if k not in u.externals and k not in new:
                        new.append(k)
                        u.problems.append({"fn": k, "tag": f["tag"], "why": d["message"][:300]})
            if not new:
                u.dead = "front end: " + "; ".join(d["message"][:200] for d in errs[:3]) if errs else "front end: " + err[-300:]
                return u
            u.externals += new
            continue
        break
    else:
        u.dead = "front end: too many functions out of reach"
        return u
    u.verified, u.errors = vr["verified"], vr["errors"]
    u.cmd = "vx contracts/%s.vrs && verus %s.rs" % (name, name)
    for m in out.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            u.smt_ms += f.get("time-micros", 0) / 1000.0
    text = "\n".join(src)
    # soundness of the text: nothing is assumed except through the listed trusted functions
    if re.search(r"\b(assume|admit)\s*\(", re.sub(r"//.*", "", text)):
        u.dead = "assume/admit in the verified text"
        return u
    for i, l in enumerate(src):
        if "external_body" in l or "assume_specification" in l:
            seg = " ".join(src[i:i + 3])
            m = re.search(r"\bassume_specification\b.*?\[\s*(.*?)\s*\]\s*\(", seg) or re.search(r"\b(?:fn|struct)\s+(\w+)", seg)
            ty = ""
            for k in range(i, -1, -1):
                mm = re.match(r"(?:impl|trait)\b\s*(.*?)\s*\{?$", src[k])
                if mm:
                    ty = re.sub(r"^<[^>]*>\s*", "", mm.group(1)).split("{")[0].strip() + "::"
                    break
                if src[k].startswith("}"):
                    break
            u.trusted.append((ty if "assume_spec" not in l else "") + (m.group(1) if m else l.strip()))
    for d in errs:
        f, tag, l = locate(u.fns, tags, d["spans"])
        msg = d["message"]
        clause = [src[s["line_start"] - 1].strip()[:220] for s in d["spans"]]
        rec = {"unit": name, "fn": None if f is None else "%s :: %s :: %s" % (f["file"], f["sel"], f["name"]), "tag": tag, "msg": msg,
               "obligation": clause, "rendered": d.get("rendered", "")[:3000],
               "src_line": None if f is None else f["src_line"], "notes": [] if f is None else f["notes"]}
        if "rlimit" in msg.lower() or "resource limit" in msg.lower():
            rec["why"] = "resource limit"
            u.unknown.append(rec)
        elif f is None:
            rec["why"] = "lemma rejected"
            u.unknown.append(rec)
        elif tag.endswith(".soft"):
            rec["why"] = "this contract pins down more than the property asks for, so its rejection decides nothing"
            u.unknown.append(rec)
        elif f["shape"]:
            rec["why"] = "contract no longer fits the code's shape: " + "; ".join(f["shape"])
            u.unknown.append(rec)
        else:
            u.rejected.append(rec)
    for f in u.fns:
        if f["shape"] and not any(r["fn"] and r["fn"].endswith(" :: " + f["name"]) for r in u.unknown + u.rejected):
            pass
    if vacuity and not u.rejected and not u.unknown:
        vrs = os.path.join(work, name + "_vac.rs")
        vmp = os.path.join(work, name + "_vac.json")
        cmd = [vx, tpl, vrs, vmp, "--repo", REPO, "--dep", reg, "--vacuity"]
        if u.externals:
            cmd += ["--external", ",".join(u.externals)]
        if u.skips:
            cmd += ["--skip", ",".join(u.skips)]
        rc, o, e = sh(cmd, timeout=120)
        jv = json.load(open(vmp))
        rc, out, diags, err = run_verus(vrs, ["--multiple-errors", "50"], timeout)
        hit = set()
        for d in diags:
            if d.get("level") == "error" and d.get("spans"):
                f, tag, l = locate(jv["functions"], jv["tags"], d["spans"])
                if f is not None:
                    hit.add((f["file"], f["sel"], f["name"], f["out_start"]))
        for f in jv["functions"]:
            if f["decl"] or f["external"]:
                continue
            if (f["sel"], f["name"]) in VAC_OK:
                continue
            u.vac_n += 1
            if (f["file"], f["sel"], f["name"], f["out_start"]) not in hit:
                u.vac_bad.append("%s|%s|%s" % (f["file"], f["sel"], f["name"]))
    return u


def hypothesis(t):
    """stand-ins for recursive calls, whose requires clause restricts them to smaller operands"""
    return t.split("::")[-1].endswith("_rec") and not t.split("::")[-1].startswith(("check_children", "materialize"))


# ---- bounded search on the real crate -------------------------------------------------------------
def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(b, pid, tier, seed, secs, extra=()):
    cmd = [b, pid, "--seed", str(seed), "--tier", tier, "--secs", str(secs)] + list(extra)
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    try:
        p = retry_busy(lambda: subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs + 60, preexec_fn=limits, env=env))
        rc, o, e = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -999, None, ""
    try:
        return rc, json.loads(o.strip().splitlines()[-1]), e
    except (ValueError, IndexError):
        return rc, None, e


def search(b, pid, tier, seed, secs, work):
    """run the search; a crash of the process is attributed to the case it was executing"""
    rc, j, e = run_harness(b, pid, tier, seed, secs)
    if j is not None:
        f = j.get("fail")
        if f and f.get("input", "").startswith("?"):
            tr = os.path.join(work, "trace")
            run_harness(b, pid, tier, seed, 40, ["--case", str(f["case"]), "--trace", tr])
            if os.path.exists(tr):
                f["input"] = open(tr, errors="replace").read().strip().split("\t", 1)[-1]
        return j
    tr = os.path.join(work, "trace")
    rc2, j2, e2 = run_harness(b, pid, tier, seed, secs, ["--trace", tr])
    if j2 is not None and j2.get("fail"):
        return j2
    if j2 is None and os.path.exists(tr):
        t = open(tr, errors="replace").read().strip()
        if "\t" in t:
            cid, d = t.split("\t", 1)
            why = "signal %d" % -rc2 if -100 < rc2 < 0 else ("hang" if rc2 == -999 else "exit %d" % rc2)
            return {"property": pid, "seed": seed, "tier": tier, "evaluations": int(cid), "distinct_nontrivial": 0, "samples": [], "truncated": True,
                    "fail": {"case": int(cid), "input": d, "observed": "the process died: %s %s" % (why, (e2 or "").strip()[-300:])}}
    return {"property": pid, "seed": seed, "tier": tier, "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "truncated": True, "fail": None,
            "error": "harness ended with %d and no result" % rc}


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    reg = registry()
    hres = {}

    def harness_job():
        try:
            b, err = build_harness()
            if b is None:
                hres["error"] = err
                return
            b2 = os.path.join(work, "harness")
            install(b, b2)
            hres["bin"] = b2
            hres["r"] = search(b2, pid, tier, SEED, 60 if tier == "quick" else 400, work)
        except Exception as ex:  # noqa
            hres["error"] = repr(ex)

    th = threading.Thread(target=harness_job)
    th.start()
    units = []
    if spec["units"]:
        vx0 = build_vx()
        vx = os.path.join(work, "vx")
        install(vx0, vx)
        with ThreadPoolExecutor(4) as ex:
            units = list(ex.map(lambda n: verify_unit(vx, n, work, reg, [], 400), spec["units"]))
    stab = []
    if tier == "thorough" and spec["units"]:
        # proof stability: the same obligations under other solver seeds
        for s in (7, 23):
            for n in spec["units"]:
                w2 = os.path.join(work, "s%d" % s)
                os.makedirs(w2, exist_ok=True)
                v = verify_unit(vx, n, w2, reg, ["--smt-option", "smt.random_seed=%d" % s], 400, vacuity=False)
                stab.append({"unit": n, "smt_seed": s, "verified": v.verified, "errors": v.errors, "dead": v.dead})
    th.join()
    tags = set(spec["tags"])
    rejected = [r for u in units for r in u.rejected if r["tag"] in tags]
    unknown = [r for u in units for r in u.unknown if r["tag"] in tags]
    problems = [p for u in units for p in u.problems if p["tag"] in tags or p["tag"] == "*"]
    dead = [(u.name, u.dead) for u in units if u.dead]
    vac_bad = [(u.name, x) for u in units for x in u.vac_bad]
    hr = hres.get("r") or {}
    fail = hr.get("fail")
    # an obligation was rejected or is out of reach on this tree: search deeper for a failing input
    deeper = None
    if not fail and (rejected or unknown or problems or dead) and hres.get("bin"):
        deeper = search(hres["bin"], pid, "thorough", SEED + 1, 150, work)
        fail = deeper.get("fail")
    known = known_findings(pid)
    # a listed finding must still be reproducible; anything else that fails is a violation
    for kid, text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fns = [f for u in units if not u.dead for f in u.fns if not f["decl"]]
    mine = [f for f in fns if f["tag"] in tags]
    ver = sum(u.verified for u in units if not u.dead)
    err = sum(u.errors for u in units if not u.dead)
    proved = not (rejected or unknown or problems or dead or vac_bad) and bool(units) and ver > 0
    level = spec.get("level", "proof")
    if level == "proof" and not proved:
        level = "other"  # a tree on which the proof does not go through
    cov = {
        "obligations": ver + err,
        "discharged": ver,
        "checker_cmd": "; ".join("vx contracts/%s.vrs -> %s.rs; verus %s.rs" % (n, n, n) for n in spec["units"]),
        "trusted_base": sorted(set(t for u in units for t in u.trusted if not hypothesis(t))),
        "induction_hypotheses": sorted(set(t for u in units for t in u.trusted if hypothesis(t))),
        "back_end": "Verus 0.2026.09.13 (z3)",
        "solver_time_ms": round(sum(u.smt_ms for u in units), 1),
        "functions_under_contract": sorted(set("%s:%d %s::%s" % (f["file"], f["src_line"], f["sel"], f["name"]) for f in mine if not f["external"])),
        "functions_out_of_reach_on_this_tree": problems,
        "extraction_notes": sorted(set("%s::%s: %s" % (f["sel"], f["name"], n) for f in mine for n in f["notes"]))[:200],
        "vacuity_guard": {"functions_with_assert_false": sum(u.vac_n for u in units), "accepted_unexpectedly": [x for _, x in vac_bad]},
        "all_obligations_discharged": proved,
        "bounded_part": spec.get("bounded", "counterexample search on the compiled crate; also validates the assumed contracts of smallvec/core (bounded, not proved)"),
        "evaluations": hr.get("evaluations", 0) + (deeper or {}).get("evaluations", 0),
        "distinct_nontrivial": hr.get("distinct_nontrivial", 0) + (deeper or {}).get("distinct_nontrivial", 0),
        "rule": spec.get("rule", "cases of harness/src for this property; distinct by their printed description, trivial (empty operands) excluded"),
        "samples": hr.get("samples", []),
    }
    if not proved and units:
        cov["not_proved_on_this_tree"] = {"rejected": rejected, "undecided": [dict((k, v) for k, v in r.items() if k != "rendered") for r in unknown], "units_not_verified": dead,
                                         "stand_in": "bounded search only"}
    if stab:
        cov["stability"] = stab
    if hres.get("error"):
        cov["harness_error"] = hres["error"][-1500:]
    viol = 0
    line = None
    if fail:
        viol = 1
        rp = os.path.join(BUILD, "replay-%s.json" % pid)
        json.dump({"property": pid, "kind": "failing input", "failing": fail, "seed": (deeper or hr).get("seed"), "tier": (deeper or hr).get("tier"),
                   "rerun": "harness %s --seed %s --tier %s --case %s" % (pid, (deeper or hr).get("seed"), (deeper or hr).get("tier"), fail["case"]),
                   "failed_obligations": rejected, "undecided": unknown}, open(rp, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s" % (pid, rp)
        print("failing input: %s" % fail["input"][:600])
        print("observed: %s" % fail["observed"][:600])
        for r in rejected:
            print("failed obligation: %s: %s %s" % (r["fn"], r["msg"], r["obligation"]))
    elif rejected:
        viol = 1
        rp = os.path.join(BUILD, "replay-%s.json" % pid)
        json.dump({"property": pid, "kind": "failed obligation, no failing input found", "failed_obligations": rejected,
                   "searched": {"evaluations": cov["evaluations"]}}, open(rp, "w"), indent=1)
        for r in rejected:
            print("failed obligation: %s: %s %s" % (r["fn"], r["msg"], r["obligation"]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)
    if not proved and units and not viol:
        print("note: not all obligations could be decided on this tree; the bounded search stood in (%d cases, no failure): %s" % (
            cov["evaluations"], "; ".join([str(d) for d in dead] + [p["fn"] + ": " + p["why"] for p in problems] + [str(r["fn"]) + ": " + r["why"] for r in unknown] + ["vacuous: " + x for _, x in vac_bad])[:1500]))
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": fallback_notes.ASSUMPTIONS + spec.get("assumptions", []), "violations": viol}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d/%d obligations discharged, %d bounded cases, %.1f s" % (pid, tier, ver, ver + err, cov["evaluations"], time.time() - t0))
    if line:
        print(line)
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
