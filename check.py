#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- decides one property of /repo's current source by static analysis.

Extracts the type-checked program (MIR facts) of /repo's working tree, runs the property's analysis, writes
evidence/<PROPERTY>.json, prints KNOWN-FINDING / VIOLATION lines and exits 0 or 1 (2: the check itself failed)."""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import facts  # noqa: E402
import registry  # noqa: E402


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    out = {}
    for e in json.load(open(p))["findings"]:
        if e.get("status") == "known":
            out[(e["property"], e["key"])] = e["what"]
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = registry.PROPERTIES[prop]
    if os.environ.get("VERIF_FACTS"):
        fdir, tmp = os.environ["VERIF_FACTS"], None
    else:
        tmp = fdir = tempfile.mkdtemp(prefix="facts-", dir=os.path.join(HERE, ".build"))
    try:
        if tmp:
            r = subprocess.run(["bash", os.path.join(HERE, "facts.sh"), fdir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-3000:])
                print("ERROR: the facts of /repo could not be extracted (does it build?)")
                return 2
        prog = facts.Program(fdir)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    t1 = time.time()
    viol, cov = spec["run"](prog, tier)
    kn = known()
    cov.setdefault("obligations", 0)
    cov.setdefault("discharged", 0)
    cov["checker_cmd"] = "python3 check.py %s %s" % (prop, tier)
    cov["trusted_base"] = spec["trusted"]
    cov["extraction_s"] = round(t1 - t0, 2)
    cov["explanation"] = spec["explain"]
    cov["bodies_in_program"] = len(prog.bodies)
    new, seen = [], []
    for key, msg, detail in viol:
        if (prop, key) in kn:
            if key not in seen:
                seen.append(key)
                print("KNOWN-FINDING: property=%s %s" % (prop, kn[(prop, key)]))
        else:
            new.append({"key": key, "what": msg, "detail": detail})
    cov["known_findings"] = seen
    cov["violations"] = [v["what"] for v in new]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        rp = os.path.join("evidence", prop + ".violation.json")
        with open(os.path.join(HERE, rp), "w") as f:
            json.dump({"property": prop, "replay": "python3 check.py %s %s" % (prop, tier), "violations": new}, f, indent=1, default=str)
        for v in new:
            print("  " + v["what"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    vf = os.path.join(HERE, "evidence", prop + ".violation.json")
    if os.path.exists(vf):
        os.remove(vf)
    print("OK property=%s obligations=%s discharged=%s (%.1fs)" % (prop, cov["obligations"], cov["discharged"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # a failure of the check is neither a pass nor a violation
        import traceback
        traceback.print_exc()
        print("ERROR: %s: %s" % (type(e).__name__, e))
        sys.exit(2)
