#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of the code in /repo. See DESIGN.md.

1. Every contract of the property is verified again, from /repo's current source: Verus units
   (functions extracted mechanically from /repo) and Kani harnesses (the crate itself).
2. Concrete histories are run against the code: the bounded stand-in for what no contract covers,
   and the search for a failing input when an obligation fails.
Exit 0: everything decided holds. Exit 1: VIOLATION line. The tier is taken from VERIF_TIER.
"""
import json, os, sys, time, threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "driver"))
import kani, native, plan, verus, playback


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    p = plan.PROPERTIES[prop]
    thorough = tier == "thorough"
    harnesses = [h for h in plan.harnesses(prop) if thorough or not h.thorough]
    ms = p.native_ms * (15 if thorough else 1)
    work = os.path.join(HERE, "target", "replay")
    os.makedirs(work, exist_ok=True)

    # Concrete runs first: the build is needed, the runs go on while the verifiers compile.
    nat_ok, nat_log = native.build()
    runs = []
    nseeds = 8 if thorough else 3
    if nat_ok:
        runs = native.start(prop, ms, [seed * 1000 + i for i in range(nseeds)])

    vres = []
    vt = threading.Thread(target=lambda: vres.extend(verus.verify(plan.units(prop), 300 if not thorough else 900, total=560 if not thorough else 7200)))
    vt.start()
    if harnesses:
        kres, klog = kani.verify([h.name for h in harnesses], harness_timeout=1500 if thorough else 330,
                                 timeout=6 * 3600 if thorough else 620)
    else:
        kres, klog = {}, ""
    vt.join()
    nat = native.collect(prop, runs, ms) if nat_ok else dict(
        histories=0, operations=0, other_failures=0, parts={}, undecided=["does not build: " + nat_log[-400:]], fail=None)

    failed = [(h, r) for h, r in kres.items() if r["status"] == "failed"]
    vfailed = [u for u in vres if u["failures"]]
    if nat_ok and nat["fail"] is None and (nat["other_failures"] or failed or vfailed):
        # Look harder: longer, with other seeds, passing over failures of other properties.
        more = 25000 if failed or vfailed else 8000
        nat2 = native.collect(prop, native.start(prop, more, [seed * 1000 + 100 + i for i in range(8)], soft=True), more)
        nat["fail"] = nat2["fail"]
        for k in ("histories", "operations"):
            nat[k] += nat2[k]
    played = None
    if failed and nat["fail"] is None:
        played = playback.replay([h for h, _ in failed], 150)

    evidence(prop, tier, seed, p, harnesses, kres, vres, nat, time.time() - t0)

    for l in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, l))
    summary(kres, vres, nat)
    if not failed and not vfailed and nat["fail"] is None:
        return 0
    path = os.path.join(work, "%s-%d.txt" % (prop, os.getpid()))
    with open(path, "w") as f:
        f.write("property %s: %s\n\n" % (prop, p.title))
        for u in vfailed:
            f.write("FAILED OBLIGATION (Verus, unit %s, %s)\n" % (u["name"], ", ".join(u["functions"])))
            for x in u["failures"]:
                f.write(x + "\n")
            f.write("\n")
        for h, r in failed:
            o = plan.HARNESS[h]
            f.write("FAILED OBLIGATION (Kani, contract harness %s in /verif/kani) of %s\n" % (h, ", ".join(o.fns)))
            for x in r["failures"]:
                f.write("  %s\n" % x)
            f.write("\n")
        if nat["fail"]:
            x = nat["fail"]
            f.write("FAILING INPUT on the real code: %s\n  properties: %s\n  %s\n" % (x["where"], x["tags"], x["message"]))
            f.write("  replay: cd /verif && %s %s 1 %s --trace %s\n\n" % (native.BIN, prop, x["seed"], x["arg"]))
            f.write(native.trace(prop, x) + "\n")
        if played:
            f.write("COUNTEREXAMPLE of the verifier, executed against the real code:\n" + played + "\n")
        if failed:
            f.write("\n--- output of the verifier ---\n" + kani.excerpt(klog, [h for h, _ in failed]) + "\n")
    tail = "" if nat["fail"] or played else " no-failing-input-found"
    print("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
    return 1


def summary(kres, vres, nat):
    for u in vres:
        print("verus %-24s %s (%d verified, %d failed, %.1f s)%s" % (
            u["name"], u["status"], u["verified"], len(u["failures"]), u["time"], " " + u["reason"] if u["reason"] else ""))
    for h, r in sorted(kres.items()):
        print("kani  %-34s %s (%d checks, %.1f s) %s" % (h, r["status"], r["checks"], r["time"], r["reason"]))
        for x in r["failures"][:8]:
            print("        %s" % x)
    print("native: %d histories, %d operations, parts %s%s%s" % (
        nat["histories"], nat["operations"], nat["parts"],
        "; undecided: %s" % nat["undecided"] if nat["undecided"] else "",
        "; FAIL %s: %s" % (nat["fail"]["where"], nat["fail"]["message"]) if nat["fail"] else ""))


def known_findings(prop):
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    return out


def evidence(prop, tier, seed, p, harnesses, kres, vres, nat, wall):
    total = discharged = 0
    solver = 0.0
    undecided, contracts = [], []
    for h in harnesses:
        r = kres[h.name]
        n = max(r["checks"], 1)
        total += n
        discharged += n - max(r["failed"], 1) if r["status"] == "failed" and r["checks"] else (n if r["status"] == "proved" else 0)
        solver += r["time"]
        contracts.append(dict(obligation=h.name, functions=h.fns, scope=h.scope, back_end="Kani/CBMC", status=r["status"],
                              checks=r["checks"], seconds=round(r["time"], 2), **({"reason": r["reason"]} if r["reason"] else {})))
        if r["status"] == "undecided":
            undecided.append("%s: %s" % (h.name, r["reason"]))
    for u in vres:
        total += u["verified"] + len(u["failures"]) + (1 if u["status"] == "undecided" else 0)
        discharged += u["verified"]
        solver += u["time"]
        contracts.append(dict(obligation="verus/" + u["name"], functions=u["functions"], scope="unbounded", back_end="Verus/Z3",
                              status=u["status"], checks=u["verified"], seconds=round(u["time"], 2),
                              **({"reason": u["reason"]} if u["reason"] else {})))
        if u["status"] == "undecided":
            undecided.append("verus/%s: %s" % (u["name"], u["reason"]))
    unb = sum(c["checks"] for c in contracts if c["scope"] == "unbounded" and c["status"] == "proved")
    cov = dict(
        obligations=total, discharged=discharged,
        discharged_unbounded=unb,
        discharged_bounded=sum(c["checks"] for c in contracts if c["scope"] != "unbounded" and c["status"] == "proved"),
        checker_cmd="python3 /verif/check.py %s  (cargo kani %s --harness ...; verus target/verus/<unit>.rs)" % (prop, " ".join(kani.FLAGS[2:])),
        trusted_base=plan.TRUSTED + p.trusted,
        functions_under_contract=sorted({f for c in contracts for f in c["functions"]}),
        contracts=contracts, undecided=undecided,
        solver_seconds=round(solver, 1),
        evaluations=nat["histories"] + sum(nat["parts"].values()),
        distinct_nontrivial=nat["histories"],
        bounded_stand_in=dict(
            what="concrete histories over the public interface against an executable model (native/), not counted as proved",
            histories=nat["histories"], operations=nat["operations"], cases=nat["parts"], undecided=nat["undecided"]),
        rule="one history per seed: a random sequence of operations over 31 component types and 53 groups; every history performs operations",
        samples=["history seeds %d.. of `shard-replay %s`" % (seed * 1000 * 1000003, prop)],
        explanation=p.note,
    )
    e = dict(property=prop, tier=tier, seed=seed, level=p.level, coverage=cov, assumptions=p.assumptions, wall_s=round(wall, 1),
             violations=sum(r["status"] == "failed" for r in kres.values()) + sum(bool(u["failures"]) for u in vres) + (1 if nat["fail"] else 0))
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
