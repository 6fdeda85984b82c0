"""The check of a property whose laws Kani decides: kani/ against /repo's current tree."""
import json, os, re, subprocess, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")


def kani(args, limit):
    try:
        r = subprocess.run(["cargo", "kani", "--target-dir", f"{BUILD}/kani"] + args, cwd=f"{ROOT}/kani", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
    except subprocess.TimeoutExpired:
        return None
    return r.stdout.decode("utf-8", "replace")


def harnesses(out):
    """per harness: verdict, checks, covers, seconds, functions"""
    d = {}
    for b in re.split(r"(?=Checking harness )", out)[1:]:
        name = re.match(r"Checking harness ([\w:]+)\.\.\.", b).group(1)
        ok = "VERIFICATION:- SUCCESSFUL" in b
        m = re.search(r"\*\* (\d+) of (\d+) failed", b)
        covers = dict((c, s) for s, c in re.findall(r"\.cover\.\d+\n\t - Status: (\w+)\n\t - Description: \"(\w+)\"", b))
        t = re.search(r"Verification Time: ([\d.]+)s", b)
        failed = re.findall(r"Status: FAILURE\n\t - Description: (.*)", b)
        d[name] = dict(ok=ok, checks=int(m.group(2)) if m else 0, covers=covers, seconds=float(t.group(1)) if t else 0.0, failed=failed,
                       functions=sorted(set(re.findall(r"in function (.*)", b))))
    return d


def main(pid, tier, P, t0):
    log = kani([], 500 if tier == "quick" else 3000)
    if log is None:
        print("NO ANSWER: Kani did not finish")
        return 2
    open(f"{BUILD}/{pid}.kani.log", "w").write(log)
    H = harnesses(log)
    want = {"proofs::" + h for h in P["laws"]}
    if set(H) != want or any(h["checks"] == 0 for h in H.values()):
        print(log[-3000:])
        print("NO ANSWER: Kani did not check every law")
        return 2
    r = subprocess.run(["cargo", "build", "--offline", "--bin", "replay", "--target-dir", f"{BUILD}/nat-kani"], cwd=f"{ROOT}/kani", env=ENV, capture_output=True)
    if r.returncode != 0:
        print(r.stderr.decode()[-3000:])
        print("NO ANSWER: the replay does not build")
        return 2

    bad = [h for h, x in H.items() if not x["ok"] or x["covers"].get("RETURNED", "UNREACHABLE") not in ("UNREACHABLE", "UNSATISFIABLE")]
    violations, unsure = [], []
    for h in sorted(bad):
        out = kani(["--exact", "--harness", h, "-Z", "concrete-playback", "--concrete-playback=print"], 300) or ""
        found = False
        for vals in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", out, re.S) + [""]:
            hexs = ["".join("%02x" % int(x) for x in v.split(",") if x.strip()) for v in re.findall(r"vec!\[([\d, ]*)\]", vals)]
            cmd = [f"{BUILD}/nat-kani/debug/replay", h.split("::")[-1]] + hexs
            r = subprocess.run(cmd, capture_output=True, timeout=60)
            if r.returncode != 0:
                os.makedirs(f"{BUILD}/replay", exist_ok=True)
                p = f"{BUILD}/replay/{pid}-{h.split('::')[-1]}.json"
                o = (r.stdout + r.stderr).decode("utf-8", "replace")
                json.dump({"property": pid, "law": h, "values": hexs, "failed": H[h]["failed"], "output": o, "command": " ".join(cmd)}, open(p, "w"), indent=1)
                violations.append((h, p, o))
                found = True
                break
        if not found:
            unsure.append((h, H[h]["failed"]))
    vac = [h for h, x in H.items() if x["covers"].get("REACHED", "SATISFIED") != "SATISFIED" and x["ok"]]
    wall = round(time.time() - t0, 2)
    cov = {
        "technique": "bounded model checking of the compiled crate by Kani (CBMC, CaDiCaL); no loop depends on the values, so the bounds do not cut anything off",
        "cases": sum(x["checks"] for x in H.values()), "obligations": sum(x["checks"] for x in H.values()),
        "discharged": sum(x["checks"] - len(x["failed"]) for x in H.values()),
        "traces_validated_against_impl": len(violations),
        "states": len(H), "transitions": sum(x["checks"] for x in H.values()),
        "bounds": [{"law": h, "values": P["laws"][h.split("::")[-1]], "checks": x["checks"], "solver_s": x["seconds"], "covers": x["covers"]} for h, x in sorted(H.items())],
        "outside_the_bounds": P["outside"],
        "functions_encoded": sorted({f for x in H.values() for f in x["functions"] if "pddl" in f}),
        "solver_s": round(sum(x["seconds"] for x in H.values()), 3),
        "samples": [{"law": h, "checks": x["checks"]} for h, x in sorted(H.items())],
    }
    json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
               "assumptions": ["Kani and CBMC encode the compiled code correctly; CaDiCaL answers correctly"], "wall_s": wall, "violations": len(violations)},
              open(f"{ROOT}/evidence/{pid}.json", "w"), indent=1)
    for h, p, o in violations:
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  law {h}: {'; '.join(H[h]['failed'][:4])}\n  natively: {o.strip()[:600]}")
    if violations:
        return 1
    if unsure or vac:
        for h, f in unsure:
            print(f"MISMATCH {h}: Kani reports {f}, but no counterexample fails natively")
        for h in vac:
            print(f"{h} is vacuous")
        return 2
    print(f"{pid} held: {len(H)} laws, {cov['cases']} checks, {cov['solver_s']} s in the solver, {wall} s")
    return 0
