#!/usr/bin/env python3
"""Decides one property: extracts the functions it depends on from /repo, lets Verus discharge their
contracts, and runs the bounded harness (failing inputs for rejected obligations; stand-in for functions that
are out of the verifier's reach)."""
import concurrent.futures, fnmatch, json, os, re, resource, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
EV = os.path.join(V, "evidence")
T0 = time.time()
BUDGET = 820
CFG = json.load(open(os.path.join(V, "run/units.json")))


def left():
    return BUDGET - (time.time() - T0)


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def env():
    e = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        o = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True, env=e).stdout
        for kv in o.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                e[k] = v
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


ENV = env()


def cargo(d, target, timeout=600):
    e = dict(ENV)
    e["CARGO_TARGET_DIR"] = target
    try:
        p = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return False, "cargo build timed out"
    return p.returncode == 0, p.stderr


def build_vlift():
    ok, err = cargo(os.path.join(V, "vlift"), os.path.join(B, "vlift"))
    if not ok:
        print(err[-3000:])
        sys.exit("cannot build vlift")
    return os.path.join(B, "vlift/release/vlift")


def build_harness(name):
    h = CFG["harness"][name]
    ok, err = cargo(os.path.join(V, h["dir"]), os.path.join(B, "harness"))
    return (os.path.join(B, "harness/release", h["bin"]) if ok else None), err


# ---------------------------------------------------------------------------------------------- verification
FAIL_MSGS = ["postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
             "arithmetic underflow/overflow", "decreases not satisfied", "could not prove termination", "division by zero",
             "requires not satisfied", "loop invariant", "recommendation not met", "unreachable", "assertion not satisfied",
             "assert_by", "bit shift", "termination", "loop ensures", "cannot show invariant", "possible"]
LIMIT_MSGS = ["resource limit", "rlimit", "timed out", "timeout"]


def fn_at(rep, line):
    for f in rep["functions"]:
        if f["start"] <= line <= f["end"]:
            return f
    return None


class Unit:
    """one contract file, instantiated"""

    def __init__(self, name, vlift):
        self.name, self.vlift, self.u = name, vlift, CFG["units"][name]
        self.degraded = {}      # key -> why
        self.rejected = []      # {fn, message, text}
        self.fns, self.details, self.broken = [], [], None
        self.verus_ms = self.smt_ms = 0
        self.rounds = 0
        self.trusted = []
        self.dir = os.path.join(B, "units")
        os.makedirs(self.dir, exist_ok=True)
        self.rs = os.path.join(self.dir, name + ".rs")
        self.cmd = ""

    def lift(self):
        a = [self.vlift, "--contract", os.path.join(V, "contracts", self.u["contract"] + ".vc"), "--out", self.rs,
             "--report", self.rs + ".json", "--repo", REPO, "--baseline", os.path.join(V, "contracts", self.name + ".base")]
        for k, v in self.u["vars"].items():
            a += ["--var", "%s=%s" % (k, v)]
        for k, w in self.degraded.items():
            a += ["--degrade", "%s=%s" % (k, re.sub(r"[^\w .,:'-]", " ", w)[:160])]
        p = subprocess.run(a, capture_output=True, text=True)
        if p.returncode != 0:
            self.broken = "extraction failed: " + (p.stderr or p.stdout)[-600:]
            return False
        self.rep = json.load(open(self.rs + ".json"))
        self.fns = self.rep["functions"]
        return True

    def verus(self, rlimit):
        a = ["verus", os.path.basename(self.rs), "--output-json", "--time-expanded", "--multiple-errors", "3", "--rlimit", str(rlimit), "--num-threads", "4", "--", "--error-format=json"]
        self.cmd = " ".join(a)
        t = time.time()
        try:
            p = subprocess.run(a, cwd=self.dir, env=ENV, capture_output=True, text=True, timeout=max(30, min(420, left() - 60)))
        except subprocess.TimeoutExpired:
            return None, []
        self.verus_ms += int((time.time() - t) * 1000)
        diags = []
        for l in p.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                if "panicked" in l:
                    diags.append({"level": "error", "message": "verifier " + l, "spans": [], "rendered": l})
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                diags.append(d)
        try:
            o = json.loads(p.stdout)
        except ValueError:
            o = None
        return o, diags

    def run(self):
        rlimit = 30
        raised = False
        while True:
            self.rounds += 1
            if not self.lift():
                return
            if self.rep["types_missing"]:
                self.broken = "types not found in the source: " + ", ".join(map(str, self.rep["types_missing"]))
                return
            if left() < 90 or self.rounds > 14:
                self.broken = "out of time while leaving out functions the verifier cannot take"
                return
            o, diags = self.verus(rlimit)
            if o is None and not diags:
                self.broken = "the verifier did not finish"
                return
            vr = (o or {}).get("verification-results", {})
            lines = open(self.rs).read().split("\n")
            hard, soft, limit = [], [], []
            for d in diags:
                m = d["message"].lower()
                if any(x in m for x in LIMIT_MSGS):
                    limit.append(d)
                elif any(x in m for x in FAIL_MSGS) and d.get("code") is None:
                    soft.append(d)
                else:
                    hard.append(d)
            new = {}
            for d in hard:
                f = None
                for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                    f = fn_at(self.rep, s["line_start"])
                    if f:
                        break
                if f is None or f["key"] in self.degraded or f["key"] in new and False:
                    self.broken = "the extracted text does not compile outside the functions under contract: " + d["message"][:300]
                    self.text = d.get("rendered", "")[:2000]
                    return
                new[f["key"]] = "the verifier's front end does not take the extracted function: " + d["message"][:140]
            if new:
                self.degraded.update(new)
                continue
            if limit:
                if not raised:
                    raised = True
                    rlimit *= 4
                    continue
                for d in limit:
                    for s in d["spans"]:
                        f = fn_at(self.rep, s["line_start"])
                        if f:
                            new[f["key"]] = "the solver's resource limit was reached"
                if new and not all(k in self.degraded for k in new):
                    self.degraded.update(new)
                    continue
                if not new:
                    self.broken = "the solver's resource limit was reached in a lemma"
                    return
            for d in soft:
                sp = sorted(d["spans"], key=lambda s: ("end of the function body" not in (s["label"] or ""), "at this" not in (s["label"] or ""), not s["is_primary"]))
                f, where = None, sp[0]["line_start"] if sp else 0
                for s in sp:
                    f = fn_at(self.rep, s["line_start"])
                    if f:
                        where = s["line_start"]
                        break
                name = f["key"] if f else self.raw_name(lines, where)
                # the failing clause
                cl = [x["text"].strip() for s in d["spans"] if s["is_primary"] for x in s.get("text", [])]
                if "precondition" in d["message"]:
                    cl += [x["text"].strip() for s in d["spans"] if "failed precondition" in (s["label"] or "") for x in s.get("text", [])]
                self.rejected.append({"unit": self.name, "fn": name, "message": d["message"], "clause": " ".join(cl)[:400], "text": d.get("rendered", "")})
            self.finish(o, lines)
            return

    def raw_name(self, lines, n):
        for i in range(min(n, len(lines)) - 1, -1, -1):
            m = re.search(r"\bfn (\w+)", lines[i])
            if m:
                return m.group(1)
        return "?"

    def finish(self, o, lines):
        smt = o["times-ms"]
        smt = smt.get("smt") or smt.get("verification", {}).get("smt") or {}
        self.smt_ms = smt.get("smt-run", 0)
        for m in smt.get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                self.details.append({"fn": f["function"].split("::", 1)[-1], "mode": f.get("mode:", ""), "ok": f["success"], "ms": f["time"], "rlimit": f["rlimit"]})
        self.verified = o["verification-results"]["verified"]
        self.errors = o["verification-results"]["errors"]
        txt = "\n".join(lines)
        under = {f["start"]: f for f in self.fns}
        for m in re.finditer(r"#\[verifier::external_body\]\s*\n?\s*((?:pub |proof |broadcast |const |unsafe )*(fn|struct|enum) (\w+))", txt):
            ln = txt.count("\n", 0, m.start()) + 1
            f = fn_at(self.rep, ln)
            if f:
                continue
            owner = ""
            for i in range(ln - 1, -1, -1):
                if lines[i].startswith("}"):
                    break
                im = re.match(r"\s?(?:pub )?(impl|trait)\b(?:<[^>]*>)?\s*(?:\w+(?:<[^>]*>)? for )?(\w+)", lines[i])
                if im:
                    owner = im.group(2) + "::"
                    break
            self.trusted.append("%s %s%s" % (m.group(2), owner, m.group(3)))
        for m in re.finditer(r"\b(assume\s*\(|admit\s*\(|assume_specification)", txt):
            self.trusted.append("assume at line %d of the extracted text" % (txt.count("\n", 0, m.start()) + 1))
        self.uninterp = len(re.findall(r"\buninterp spec fn", txt))


# -------------------------------------------------------------------------------------------------- harness
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def run_bin(a, timeout):
    # the code under test may write megabytes of diagnostics: keep them out of memory
    ef = os.path.join(SCR, "stderr")
    with open(ef, "wb") as f:
        p = subprocess.Popen(a, stdout=subprocess.DEVNULL, stderr=f, env=ENV, preexec_fn=limits, cwd=SCR)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return "timeout", ""
    with open(ef, "rb") as f:
        f.seek(max(0, os.path.getsize(ef) - 2000))
        return rc, f.read().decode(errors="replace")


def run_harness(name, binary, props, seed, secs):
    out = os.path.join(SCR, "h.json")
    if os.path.exists(out):
        os.remove(out)
    base = [binary, "--seed", str(seed), "--secs", str(secs), "--props", ",".join(props), "--scratch", SCR]
    rc, err = run_bin(base + ["--out", out], secs + 90)
    if rc == 0 and os.path.exists(out):
        return json.load(open(out))
    # the process died: find the case, thread by thread
    log("harness ended with", rc, "- looking for the case")
    for t in range(8):
        tr = os.path.join(SCR, "trace")
        if os.path.exists(tr):
            os.remove(tr)
        if os.path.exists(out):
            os.remove(out)
        rc2, err = run_bin(base + ["--out", out, "--threads", "1", "--tid", str(t), "--trace", tr], min(secs * 6 + 60, max(20, left() - 60)))
        if rc2 != 0 and os.path.exists(tr):
            prop, inp = open(tr).read().split("\n", 1)
            return {"fails": {prop: {"count": 1, "input": inp, "what": "the process ended abnormally (%s): %s" % (rc2, err[-300:])}}, "counts": {}, "skipped": {}, "samples": [], "secs": secs, "died": True}
    return {"fails": {}, "counts": {}, "skipped": {"process died, case not found": 1}, "samples": [], "secs": secs, "died": True}


def known(prop, what, inp):
    p = os.path.join(V, "known_findings.txt")
    if not os.path.exists(p):
        return None
    for l in open(p):
        m = re.match(r"known: property=(\S+) (\S+) (.*)", l.strip())
        if m and m.group(1) == prop and (m.group(2) in inp or m.group(2) in what):
            return l.strip()
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    global SCR
    SCR = os.path.join(B, "scratch.%d" % os.getpid())
    os.makedirs(SCR)
    os.makedirs(EV, exist_ok=True)
    try:
        rc = decide(prop, tier, seed)
    finally:
        shutil.rmtree(SCR, ignore_errors=True)
    sys.exit(rc)


def select(unit, pats):
    return [f for f in unit.fns if any(fnmatch.fnmatchcase(f["key"], p.split("#")[0]) for p in pats)]


def clause_counts(r, pats):
    """FN#word: only the postconditions and (of the functions it calls) preconditions that say `word(` belong to the property (FN#pre: everything but postconditions; FN#panic: what keeps it from panicking)"""
    ps = [p.split("#") for p in pats if fnmatch.fnmatchcase(r["fn"], p.split("#")[0])]
    if not ps or any(len(p) == 1 for p in ps):
        return True
    m = r["message"].lower()
    post = "postcondition" in m
    panic = any(x in m for x in ("precondition", "requires", "overflow", "division", "bit shift", "unreachable"))
    return any((w + "(") in r["clause"] or not post and (w == "pre" or w == "panic" and panic) for p in ps for w in p[1:])


def decide(prop, tier, seed):
    pc = CFG["props"][prop]
    vlift = build_vlift()
    units = [Unit(un, vlift) for un in pc["units"]]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        list(ex.map(Unit.run, units))
    for u in units:
        log("unit", u.name, "verified", getattr(u, "verified", "-"), "rejected", len(u.rejected), "left out by the verifier's front end or limits", len(u.degraded),
            "not lifted", len([f for f in u.fns if f["status"] != "ok" and f["key"] not in u.degraded]), u.broken or "", "rounds", u.rounds)
    # which obligations belong to the property
    obligations, rejected, deg, under, dropped, differs = [], [], [], [], [], []
    for u in units:
        sel = select(u, pc["units"][u.name])
        keys = {f["key"] for f in sel}
        if u.broken:
            for f in sel:
                deg.append({"unit": u.name, "fn": f["key"], "why": u.broken})
            if not sel:
                deg.append({"unit": u.name, "fn": "*", "why": u.broken})
            continue
        for f in sel:
            under.append("%s: %s" % (u.name, f["key"]))
            if f["status"] != "ok":
                deg.append({"unit": u.name, "fn": f["key"], "why": f["status"]})
            if f["dropped"]:
                dropped.append({"fn": f["key"], "dropped": f["dropped"]})
        own_lemmas = set(pc.get("lemmas", []))
        allkeys = {f["key"] for f in u.fns}
        rej = set()
        for r in u.rejected:
            isfn = r["fn"] in allkeys
            if (isfn and r["fn"] in keys and clause_counts(r, pc["units"][u.name])) or (not isfn and (r["fn"] in own_lemmas or not re.match(r"lemma_c\d\d", r["fn"]))):
                if u.u.get("sufficient"):
                    # the contracts of this unit state more than the property (the very text, where the property is
                    # about its meaning): what is rejected is decided by the bounded comparison instead
                    if r["fn"] not in rej:
                        deg.append({"unit": u.name, "fn": r["fn"], "why": "not the text under contract (%s: %s): its meaning is compared on bounded inputs only" % (r["message"], r["clause"][:120])})
                        differs.append(r)
                else:
                    rejected.append(r)
                rej.add(r["fn"])
        emits = {f["emit"]: f for f in sel if f["status"] == "ok"}
        for d in u.details:
            n = d["fn"]
            base = n.split("::")[-1]
            if u.u.get("sufficient") and ((emits[n]["key"] if n in emits else base) in rej):
                continue
            if n in emits or (d["mode"] == "proof" and (base in own_lemmas or not re.match(r"lemma_c\d\d", base))):
                obligations.append({"unit": u.name, "fn": n, "mode": d["mode"], "ok": d["ok"], "ms": d["ms"], "rlimit": d["rlimit"]})
    # bounded harness
    hn = pc.get("harnesses") or sorted({CFG["units"][u]["harness"] for u in pc["units"]} | set(pc.get("harness", [])))
    secs = pc["secs"] * (6 if tier == "thorough" else 1)
    if rejected or differs:
        secs = max(secs, 60)
    elif deg:
        secs = max(secs, 30)
    hres, hnotes = [], []
    for h in hn:
        b, err = build_harness(h)
        if not b:
            hnotes.append("harness %s does not build: %s" % (h, err[-500:]))
            log(hnotes[-1])
            continue
        # always the same quick search first; longer only if it finds nothing and something was rejected
        r = run_harness(h, b, [prop], seed, min(pc["secs"], secs))
        hres.append((h, r))
        if secs > pc["secs"] and prop not in r["fails"] and left() > secs + 100:
            r2 = run_harness(h, b, [prop], seed + 7919, secs)
            hres.append((h, r2))
        log("harness", h, {k: v["count"] for h_, x in hres if h_ == h for k, v in x["fails"].items()}, {k: v for h_, x in hres if h_ == h for k, v in x["counts"].items()})
    # PROP/kind: a kind of its own, so that a known finding of that kind doesn't hide others
    fails = [(h, v) for h, r in hres for p, v in sorted(r["fails"].items()) if p.split("/")[0] == prop]
    others = {p: v for _, r in hres for p, v in r["fails"].items() if p.split("/")[0] != prop}
    # verdict
    rp = os.path.join(EV, prop + ".replay.json")
    if os.path.exists(rp):
        os.remove(rp)
    verdict, lines = 0, []
    real = []
    for h, f in fails:
        k = known(prop, f["what"], f["input"])
        if k:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k))
        else:
            real.append((h, f))
    if real:
        json.dump({"property": prop, "harness": real[0][0], "failing_input": real[0][1]["input"], "what": real[0][1]["what"], "seed": seed, "rejected_obligations": rejected + differs}, open(rp, "w"), indent=1)
        lines.append("failing input: %s" % real[0][1]["input"][:600])
        lines.append("what is wrong: %s" % real[0][1]["what"][:600])
        for r in (rejected + differs)[:5]:
            lines.append("rejected obligation: %s %s: %s [%s]" % (r["unit"], r["fn"], r["message"], r["clause"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        verdict = 1
    elif rejected:
        unexplained = [r for r in rejected if not explained(r, others, units)]
        for r in rejected[:5]:
            lines.append("rejected obligation: %s %s: %s [%s]" % (r["unit"], r["fn"], r["message"], r["clause"]))
        if unexplained and others:
            # the search labels what it sees first; the obligation that fails belongs to this property alone
            o = sorted(others)[0]
            json.dump({"property": prop, "failing_input": others[o]["input"], "what": others[o]["what"], "seen_as": o, "seed": seed, "rejected_obligations": rejected}, open(rp, "w"), indent=1)
            lines.append("failing input: %s" % others[o]["input"][:600])
            lines.append("what is wrong: %s" % others[o]["what"][:600])
            lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
            verdict = 1
        elif unexplained:
            json.dump({"property": prop, "failing_input": None, "rejected_obligations": rejected}, open(rp, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
            verdict = 1
        else:
            lines.append("the rejected obligations are explained by failing inputs of other properties (%s); this one held on everything explored" % ", ".join(sorted(others)))
    for l in lines:
        print(l, flush=True)
    # evidence
    counts = {}
    for h, r in hres:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    trusted = sorted({re.sub(r"vlit_\d+$", "vlit_* (the bytes of the string literals in the source)", t) for u in units for t in u.trusted})
    nfun = len([o for o in obligations if o["mode"] == "exec"])
    cov = {
        "obligations": len(obligations) + len(deg), "discharged": len([o for o in obligations if o["ok"]]),
        "obligation_unit": "one verification condition per function or lemma, as the verifier generates them (all pre/postconditions, invariants, termination, overflow and bounds of that item)",
        "checker_cmd": "; ".join(u.cmd for u in units), "trusted_base": trusted + ["verus 0.2026.09 and its z3 back end", "vlift's extraction (what it drops is listed under dropped)"],
        "back_end": "verus / z3", "solver_ms": sum(u.smt_ms for u in units), "verifier_ms": sum(u.verus_ms for u in units),
        "functions_under_contract": under, "functions_proved": nfun,
        "proof_items": [{"fn": o["fn"], "mode": o["mode"], "ok": o["ok"], "ms": o["ms"]} for o in obligations],
        "bounded_not_proved": deg, "rejected": [{k: r[k] for k in ("unit", "fn", "message", "clause")} for r in rejected],
        "dropped_by_extraction": dropped, "uninterpreted_specs": sum(getattr(u, "uninterp", 0) for u in units),
        "bounded_harness": {"what": pc.get("harness_note", "random inputs against an independent oracle, on the real crate; bounded, never counted as proved"), "counts": counts,
                            "samples": [s for _, r in hres for s in r["samples"]][:4], "secs": sum(r["secs"] for _, r in hres), "notes": hnotes, "fails_for_other_properties": {k: v["count"] for k, v in others.items()}},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": pc.get("level", "proof"), "coverage": cov,
          "assumptions": pc.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": verdict}
    tmp = os.path.join(EV, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EV, prop + ".json"))
    if verdict == 0:
        print("OK property=%s obligations=%d discharged=%d bounded=%d" % (prop, cov["obligations"], cov["discharged"], len(deg)))
    return verdict


def explained(r, others, units):
    """the function is also under another property, and the search has a failing input for that one"""
    for p in others:
        for u, pats in CFG["props"].get(p, {"units": {}})["units"].items():
            if u == r["unit"] and any(fnmatch.fnmatchcase(r["fn"], x.split("#")[0]) for x in pats) and clause_counts(r, pats):
                return True
    return False


if __name__ == "__main__":
    main()
