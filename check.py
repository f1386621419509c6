#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current working tree.

1. build the extractor and the replay harness (from /repo's working tree) into /verif/.work
2. for every unit of the property: extract the real functions, splice the contracts, run Verus
3. run the bounded harness on the compiled crate (stand-ins for what the verifier cannot reach,
   and the search for a failing input when an obligation fails)
4. verdict, replay file, evidence file
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402

VERIFY_MSGS = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
    "assertion failed", "decreases not satisfied", "possible arithmetic", "possible division",
    "possible bit shift", "unable to prove", "could not prove termination", "cannot show",
    "assertion not satisfied", "constructed value may fail", "failed", "not satisfied",
    "unreachable code", "possible overflow", "possible underflow",
]
RLIMIT_MSGS = ["rlimit", "resource limit", "timed out", "timeout", "unknown reason"]


def sh(cmd, cwd=None, env=None, timeout=None, log=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, errors="replace")
        out = (p.returncode, p.stdout, p.stderr)
    except subprocess.TimeoutExpired as x:
        out = (124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""),
               "timeout after %s s" % timeout)
    if log:
        with open(log, "w") as f:
            f.write("$ " + " ".join(cmd) + "\n" + out[1] + "\n" + out[2])
    return out


def build_extractor(res):
    t = os.path.join(WORK, "target-x")
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "extract"),
                  env={"CARGO_TARGET_DIR": t}, timeout=400, log=os.path.join(WORK, "build-extract.log"))
    res["extract"] = os.path.join(t, "debug", "vxtract") if rc == 0 else None


def harness_dir():
    """The harness has a path dependency on /repo; with VERIF_REPO it is copied and redirected."""
    src = os.path.join(VERIF, "harness")
    if REPO == "/repo":
        return src
    d = os.path.join(WORK, "harness-src")
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(src, d, ignore=shutil.ignore_patterns("target"))
    p = os.path.join(d, "Cargo.toml")
    s = open(p).read().replace('"/repo"', '"%s"' % REPO)
    open(p, "w").write(s)
    return d


def build_harness(res):
    t = os.path.join(WORK, "target-h")
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], cwd=harness_dir(),
                  env={"CARGO_TARGET_DIR": t, "RUSTFLAGS": "-Awarnings"}, timeout=700,
                  log=os.path.join(WORK, "build-harness.log"))
    res["harness"] = os.path.join(t, "debug", "vh") if rc == 0 else None
    if rc != 0:
        res["harness_err"] = e[-2000:]


def scan_trusted(text):
    """Every unchecked assumption in the generated file."""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s:
            j = i
            while j + 1 < len(lines) and not re.search(r"\b(fn|struct)\b", lines[j]):
                j += 1
            out.append("external_body: " + lines[j].strip()[:160])
        elif re.search(r"\b(assume|admit)\s*\(", s) or "assume_specification" in s or "external_type_specification" in s \
                or re.search(r"\baxiom\s+fn\b", s) or "external_fn_specification" in s or re.search(r"\buninterp\b", s):
            out.append(s[:160])
    return sorted(set(out))


class Unit:
    def __init__(self, name, var, cfg, tools, tag):
        self.name, self.var, self.cfg, self.tools = name, var, cfg, tools
        self.tag = tag
        self.dir = os.path.join(WORK, "units", tag)
        os.makedirs(self.dir, exist_ok=True)
        self.out = os.path.join(self.dir, name + ".rs")
        self.map = os.path.join(self.dir, name + ".json")
        self.external = []          # functions whose body is outside the verifier's reach on this tree
        self.reasons = {}
        self.failed = {}            # function id -> list of failing obligations
        self.undecided_unit = None
        self.soft = False
        self.template_errors = []
        self.verified = self.errors = 0
        self.times = {}
        self.solver_ms = 0
        self.cmds = []
        self.functions = []
        self.backend = "Verus %s / Z3" % "0.2026.09.13"

    def extract(self, probe=False):
        cmd = [self.tools["extract"], "--repo", REPO, "--unit", os.path.join(VERIF, "units", self.name + ".rs"),
               "--out", self.out, "--map", self.map]
        for k, v in self.var.items():
            cmd += ["--set", "%s=%s" % (k, v)]
        for x in self.external:
            cmd += ["--external", x]
        if probe:
            cmd += ["--probe", "1"]
        rc, o, e = sh(cmd, timeout=120)
        if rc != 0:
            self.undecided_unit = "extraction failed: " + e[-500:]
            return False
        self.m = json.load(open(self.map))
        self.functions = self.m["functions"]
        if self.m["errors"]:
            self.undecided_unit = "extraction: " + "; ".join(self.m["errors"])[:800]
            return False
        for f in self.functions:
            if f["error"]:
                if f["id"] not in self.external:
                    self.external.append(f["id"])
                self.reasons.setdefault(f["id"], f["error"])
        return True

    def verus(self, extra=(), rlimit=None, timeout=500):
        cmd = ["verus", os.path.basename(self.out), "--triggers-mode", "silent", "--output-json", "--time",
               "--error-format=json", "--multiple-errors", "4", "--num-threads", str(self.cfg.get("threads", 7)),
               "--rlimit", str(rlimit or self.cfg.get("rlimit", 30))] + list(extra)
        self.cmds.append(" ".join(cmd))
        rc, o, e = sh(cmd, cwd=self.dir, timeout=timeout, log=os.path.join(self.dir, self.name + ".log"))
        try:
            js = json.loads(o)
        except Exception:
            js = None
        diags = []
        for l in e.split("\n"):
            l = l.strip()
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except Exception:
                    continue
                if d.get("level") == "error" and d.get("spans"):
                    diags.append(d)
                elif d.get("level") == "error" and "aborting" not in d.get("message", ""):
                    diags.append(d)
        return rc, js, diags, e

    def owner(self, d):
        spans = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
        base = os.path.basename(self.out)
        for s in spans:
            if os.path.basename(s["file_name"]) != base:
                continue
            for f in self.functions:
                if f["start"] <= s["line_start"] and s["line_end"] <= f["end"]:
                    return f["id"]
        # errors that point at a contract only: the body end is in a child
        for c in d.get("children", []):
            r = self.owner(c) if c.get("spans") else None
            if r:
                return r
        return None

    def describe(self, d):
        txt = []
        for s in d.get("spans", []):
            for t in s.get("text", [])[:6]:
                txt.append(t["text"].strip())
        return {"obligation": d["message"], "at": " | ".join(txt)[:600]}

    def run(self):
        for attempt in range(14):
            if not self.extract():
                return
            # a change of the loop structure leaves the loop contracts without anchor
            rc, js, diags, raw = self.verus()
            vr = (js or {}).get("verification-results")
            compile_fail = vr is None or vr.get("encountered-vir-error") or ("verified" not in vr)
            if rc == 124:
                self.undecided_unit = "verifier timeout"
                return
            hard = [d for d in diags if self.kind(d) == "compile"]
            if compile_fail or hard:
                owners = [(self.owner(d), d) for d in (hard or diags)]
                new = []
                for o, d in owners:
                    if o and o not in self.external:
                        new.append(o)
                        self.external.append(o)
                        self.reasons[o] = "outside the verifier's reach: " + d["message"][:300]
                if new:
                    continue
                self.undecided_unit = "verifier rejects the unit: " + "; ".join(d["message"] for d in diags)[:600]
                if not diags:
                    self.undecided_unit += raw[-600:]
                return
            break
        else:
            self.undecided_unit = "too many unsupported functions"
            return
        self.collect(js)
        fails = self.sort_out(diags)
        if fails:
            # an alarm needs the same obligation to fail under other solver configurations as well
            for extra, rl in ((("--smt-option", "smt.random_seed=%d" % (7 + SEED)), 90),
                              (("-V", "spinoff-all"), 90)):
                rc, js2, diags2, _ = self.verus(extra, rl)
                vr2 = (js2 or {}).get("verification-results")
                if rc == 124 or vr2 is None:
                    break
                f2 = self.sort_out(diags2)
                fails = {k: v for k, v in fails.items() if k in f2}
                if not fails:
                    # every obligation discharged by some configuration
                    self.collect(js2)
                    self.errors = 0
                    break
        if os.environ.get("VERIF_WRITE_SKELETONS"):
            return
        base = json.load(open(os.path.join(VERIF, "units", "skeletons.json"))) \
            if os.path.exists(os.path.join(VERIF, "units", "skeletons.json")) else {}
        for k, v in fails.items():
            if k is None:
                self.template_errors += v
                continue
            f = [x for x in self.functions if x["id"] == k][0]
            b = base.get(self.name + "|" + k)
            if all(x.get("rlimit") for x in v):
                self.reasons[k] = "resource limit"
                self.external.append(k)
            elif b is not None and b != f["skeleton"]:
                self.reasons[k] = "loop structure changed (%s -> %s): loop contracts have no anchor" % (b, f["skeleton"])
                self.external.append(k)
            elif self.cfg.get("focus_out") and re.search(self.cfg["focus_out"], f["file"] + " " + k):
                self.reasons[k] = "contract of a function this property only builds on fails: " + v[0]["obligation"]
                self.external.append(k)
                self.soft = True
            else:
                self.failed[k] = v

    def kind(self, d):
        m = d["message"].lower()
        if any(x in m for x in RLIMIT_MSGS):
            return "rlimit"
        if d.get("code"):
            return "compile"
        if any(x in m for x in VERIFY_MSGS):
            return "verify"
        return "compile"

    def sort_out(self, diags):
        r = {}
        for d in diags:
            if "aborting due to" in d["message"]:
                continue
            o = self.owner(d)
            x = self.describe(d)
            if self.kind(d) == "rlimit":
                x["rlimit"] = True
            r.setdefault(o, []).append(x)
        return r

    def collect(self, js):
        vr = js["verification-results"]
        self.verified, self.errors = vr["verified"], vr["errors"]
        self.times = {}
        smt = js["times-ms"].get("smt", {})
        self.solver_ms = smt.get("smt-run", 0)
        for mod in smt.get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                self.times[f["function"]] = f["time-micros"] / 1000.0

    def probe(self):
        """Vacuity: with `assert(false)` as first statement every function must fail."""
        if not self.extract(probe=True):
            return None
        rc, js, diags, _ = self.verus(rlimit=4)
        hit = set()
        for d in diags:
            if self.kind(d) != "compile":
                o = self.owner(d)
                if o:
                    hit.add(o)
        want = [f["id"] for f in self.functions if not f["external"]]
        vac = [w for w in want if w not in hit]
        self.extract()
        return {"functions": len(want), "reachable": len(want) - len(vac), "vacuous": vac}


def load_findings():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def run_harness(binary, prop, tier, seed, out, timeout, budget=None):
    cmd = [binary, prop, "--tier", tier, "--seed", str(seed), "--out", out]
    if budget:
        cmd += ["--budget", str(budget)]
    if os.path.exists(out):
        os.unlink(out)
    rc, o, e = sh(cmd, timeout=timeout, log=out + ".log")
    if os.path.exists(out):
        try:
            return json.load(open(out)), None
        except Exception as x:
            return None, "harness output unreadable: %s" % x
    return None, "harness died (exit %s): %s" % (rc, (e or o)[-400:])


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    tools = {}
    ths = [threading.Thread(target=build_extractor, args=(tools,)),
           threading.Thread(target=build_harness, args=(tools,))]
    for t in ths:
        t.start()
    ths[0].join()
    units = []
    if tools.get("extract"):
        for i, (name, variants) in enumerate(cfg.get("units", [])):
            vs = variants[TIER] if isinstance(variants, dict) and "quick" in variants else variants
            for j, v in enumerate(vs or [{}]):
                units.append(Unit(name, v, cfg, tools, "%s-%s-%d" % (prop, name, j)))
    hres = {}

    def hrun():
        ths[1].join()
        if tools.get("harness"):
            hres["r"], hres["err"] = run_harness(tools["harness"], prop, TIER, SEED,
                                                 os.path.join(WORK, prop + "-harness.json"),
                                                 300 if TIER == "quick" else 3000)
        else:
            hres["r"], hres["err"] = None, "harness does not build against this tree: " + tools.get("harness_err", "")
    ht = threading.Thread(target=hrun)
    ht.start()
    sem = threading.Semaphore(3)

    def urun(u):
        with sem:
            u.run()
            if TIER == "thorough" and not u.undecided_unit and not u.failed:
                u.vac = u.probe()
            else:
                u.vac = None
    uts = [threading.Thread(target=urun, args=(u,)) for u in units]
    for t in uts:
        t.start()
    for t in uts:
        t.join()
    ht.join()

    if os.environ.get("VERIF_WRITE_SKELETONS"):
        p = os.path.join(VERIF, "units", "skeletons.json")
        b = json.load(open(p)) if os.path.exists(p) else {}
        for u in units:
            for f in u.functions:
                b[u.name + "|" + f["id"]] = f["skeleton"]
        json.dump(b, open(p, "w"), indent=0, sort_keys=True)
    findings = load_findings()
    listed = {f["key"]: f for f in findings["findings"] if f["property"] == prop}
    failed = []
    undecided = []
    for u in units:
        for k, v in u.failed.items():
            failed.append((u, k, v))
        for k in u.external:
            undecided.append("%s: %s (%s)" % (u.name, k, u.reasons.get(k, "")))
        if u.undecided_unit:
            undecided.append("%s: whole unit (%s)" % (u.name, u.undecided_unit))
        for x in u.template_errors:
            undecided.append("%s: lemma (%s)" % (u.name, x))
    h = hres.get("r")
    viols = (h or {}).get("violations", [])
    if (failed or any(u.soft or u.external for u in units)) and not [v for v in viols if v["key"] not in listed] and tools.get("harness"):
        # an obligation failed: search harder for an input that shows it on the real code
        for s in range(2):
            r2, _ = run_harness(tools["harness"], prop, "search", SEED + 1000 + s,
                                os.path.join(WORK, prop + "-search.json"), 150, budget=60)
            v2 = [v for v in (r2 or {}).get("violations", []) if v["key"] not in listed]
            if v2:
                viols = viols + v2
                break
    new = [v for v in viols if v["key"] not in listed]
    hit = [v for v in viols if v["key"] in listed]

    rc = 0
    lines = []
    for key, f in listed.items():
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
    if new or failed:
        rc = 1
        rp = os.path.join(WORK, "replay", prop + ".json")
        json.dump({
            "property": prop,
            "failing_inputs": new[:10],
            "failed_obligations": [{"unit": u.name, "vars": u.var, "function": k, "obligations": v,
                                    "verifier_log": open(os.path.join(u.dir, u.name + ".log")).read()[-4000:]}
                                   for u, k, v in failed],
            "how_to_replay": "%s %s --tier quick --seed %d --out /dev/stdout" % (tools.get("harness"), prop, SEED),
        }, open(rp, "w"), indent=1)
        for u, k, v in failed:
            lines.append("FAILED-OBLIGATION unit=%s function=%s: %s" % (u.name, k, v[0]["obligation"]))
            lines.append("    " + v[0]["at"][:300])
        for v in new[:3]:
            lines.append("FAILING-INPUT %s: %s" % (v["key"], v["what"][:400]))
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if new else " no-failing-input-found"))

    # ---------------------------------------------------------------- evidence
    trusted = set(cfg.get("trusted", []))
    for u in units:
        if os.path.exists(u.out):
            trusted |= set(scan_trusted(open(u.out).read()))
    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    fuc = {}
    for u in units:
        for f in u.functions:
            if f["id"] not in u.external:
                fuc.setdefault(u.name, {})[f["id"]] = "%s:%d" % (f["file"], f["line"])
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(sorted(set(u.cmds[0] for u in units if u.cmds))) or "none",
        "trusted_base": sorted(trusted),
        "functions_under_contract": fuc,
        "functions_under_contract_count": sum(len(x) for x in fuc.values()),
        "solver_ms": sum(u.solver_ms for u in units),
        "back_end": "Verus 0.2026.09.13.671956e with its bundled Z3",
        "units": [{"unit": u.name, "vars": u.var, "verified": u.verified, "errors": u.errors,
                   "vacuity_probe": getattr(u, "vac", None)} for u in units],
        "undecided_on_this_tree": undecided,
        "extraction_notes": sorted(set(n for u in units for f in u.functions for n in f["notes"]))[:60],
        "bounded_stand_ins": cfg.get("bounded", ""),
    }
    if h:
        cov["evaluations"] = h["evaluations"]
        cov["distinct_nontrivial"] = h["distinct_nontrivial"]
        cov["rule"] = h.get("rule", "")
        cov["samples"] = h.get("samples", [])[:8]
        cov["harness_parts"] = h.get("parts", {})
    else:
        cov["harness_error"] = hres.get("err")
    level = cfg.get("level", "proof")
    if level == "other":
        cov["explanation"] = cfg.get("explanation", cfg.get("bounded", ""))
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
          "violations": len(new) + len(failed)}
    if TIER not in ("quick", "thorough"):
        ev["tier"] = "quick"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    print("%s: %d obligations, %d discharged, %d functions under contract, %d undecided; bounded: %s evaluations (%s); %.0f s"
          % (prop, obligations, discharged, cov["functions_under_contract_count"], len(undecided),
             (h or {}).get("evaluations", 0), hres.get("err") or "ok", time.time() - t0))
    for u in undecided:
        print("UNDECIDED " + u[:400])
    for u in units:
        if getattr(u, "vac", None) and u.vac["vacuous"]:
            print("VACUOUS in %s: %s" % (u.name, u.vac["vacuous"]))
    for l in lines:
        print(l)
    sys.exit(rc)


if __name__ == "__main__":
    main()
