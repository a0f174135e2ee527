"""bin/check: decide one property."""
import argparse
import importlib
import json
import os
import sys
import time

from . import core, deps


# the quick tier's number of cases, as a multiple of the counts of the subs:
# chosen so that each check takes about 45 s of eight cores
QUICK = {"C01": 6, "C02": 8, "C03": 10, "C04": 6, "C05": 6, "C06": 6,
         "C07": 5, "C08": 6, "C09": 8, "C10": 7, "C11": 1.8, "C12": 12,
         "C13": 11, "C14": 5, "C15": 10, "C16": 3, "C17": 4, "C18": 6,
         "C19": 1.8, "C20": 3, "C21": 4, "C22": 7, "C23": 3, "C24": 7,
         "C25": 3, "C26": 15, "C27": 2.5, "C28": 5, "C29": 3}


def load_findings(pid):
    """Lines of KNOWN_FINDINGS.txt.

    known: property=<id> sub=<sub> case=<json> what=<text>
    fixed: property=<id> <commit> <what failed>          (suppresses nothing)
    """
    path = os.path.join(core.HERE, "KNOWN_FINDINGS.txt")
    out = []
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known: property=%s " % pid):
            continue
        rest = line.split(" sub=", 1)[1]
        sub, rest = rest.split(" case=", 1)
        case, what = rest.split(" what=", 1)
        out.append((sub, json.loads(case), what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.monotonic()
    mpl = None
    if "MPLCONFIGDIR" not in os.environ:
        import tempfile
        mpl = tempfile.mkdtemp(prefix="vpmpl-")
        os.environ["MPLCONFIGDIR"] = mpl
    try:
        return _main(a, tier, t0)
    finally:
        if mpl:
            import shutil
            shutil.rmtree(mpl, ignore_errors=True)


def _main(a, tier, t0):
    import warnings
    warnings.simplefilter("ignore")
    if not a.replay:
        deps.ensure()
    import skopt
    if not os.path.abspath(skopt.__file__).startswith("/repo/"):
        print("ERROR: skopt is not imported from /repo: %s" % skopt.__file__)
        return 2
    mod = importlib.import_module("vp.props.%s" % a.pid.lower())
    prop = mod.PROP
    subs = {s.name: s for s in prop.subs}

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        status, ctx, err = core.run_case(subs[rep["sub"]], rep["case"])
        print("replay %s/%s: %s" % (prop.pid, rep["sub"], status))
        if err:
            print(err)
        return 1 if status == "fail" else 0

    findings = load_findings(prop.pid)
    cases = {}
    cpath = os.path.join(core.HERE, "corpus", "%s.json" % prop.pid)
    if os.path.exists(cpath):
        for e in json.load(open(cpath)):
            cases.setdefault(e["sub"], []).append(e["case"])
    known_keys = {(s, core.canon(c)) for s, c, _ in findings}

    tasks = []
    soft = t0 + (500 if tier == "quick" else 6 * 3600)
    hard = t0 + (780 if tier == "quick" else 7 * 3600)
    shrink_s = 40 if tier == "quick" else 120
    for sub, case, what in findings:
        tasks.append((("known", sub, what),
                      lambda s=subs[sub], c=case:
                      core.run_fixed(prop.pid, s, [c])))
    gen_tasks = []
    for s in prop.subs:
        if a.sub and s.name != a.sub:
            continue
        if cases.get(s.name):
            cs = [c for c in cases[s.name]
                  if (s.name, core.canon(c)) not in known_keys]
            tasks.append((("corpus", s.name, ""),
                          lambda s=s, cs=cs:
                          core.run_fixed(prop.pid, s, cs)))
        total = s.quick if tier == "quick" else s.thorough
        if tier == "quick":
            total *= QUICK.get(prop.pid, 1)
        total = max(1, int(total * a.scale))
        k = max(1, min(s.shards, total))
        if tier == "thorough":
            k = max(k, min(8, total))
        for i in range(k):
            n = total // k + (1 if i < total % k else 0)
            seed = core.derive_seed(prop.pid, s.name, i, a.seed)
            gen_tasks.append((i, ("gen", s.name, ""),
                              lambda s=s, seed=seed, n=n:
                              core.run_shard(prop.pid, s, seed, n, soft,
                                             shrink_s, tier)))
    # interleave the subs so that a violation of any of them shows up early
    gen_tasks.sort(key=lambda t: t[0])
    tasks += [(k, f) for _, k, f in gen_tasks]

    agg = {}
    state = {"violation": None, "errors": [], "known": [], "once": []}

    def on_result(key, status, value):
        kind, sub, what = key
        if status != "ok":
            state["errors"].append("%s/%s: %s" % (kind, sub, value))
            return False
        if kind == "known":
            if value["failure"] is not None:
                state["known"].append(what)
            else:
                print("note: known finding no longer fails: %s" % what)
            return False
        g = agg.setdefault(sub, {"evaluations": 0, "rejected": 0,
                                 "nontrivial": set(), "labels": {},
                                 "samples": [], "skipped": 0})
        for k in ("evaluations", "rejected", "skipped"):
            g[k] += value[k]
        g["nontrivial"] |= set(value["nontrivial"])
        for k, v in value["labels"].items():
            g["labels"][k] = g["labels"].get(k, 0) + v
        if len(g["samples"]) < 2:
            g["samples"] += value["samples"][:2 - len(g["samples"])]
        if value["failure"] is not None:
            state["violation"] = (sub, value["failure"])
            return True
        state["once"] += value["unrepeated"]
        if len(state["once"]) >= core.UNREPEATED:
            state["violation"] = (sub, state["once"][-1])
            return True
        return False

    timed_out = core.run_tasks(tasks, a.jobs, hard, on_result)

    wall = time.monotonic() - t0
    evaluations = sum(g["evaluations"] for g in agg.values())
    nontriv = sum(len(g["nontrivial"]) for g in agg.values())
    rule = "; ".join("%s: %s" % (s.name, s.rule) for s in prop.subs if s.rule)
    samples = []
    for name, g in agg.items():
        for c in g["samples"]:
            samples.append({"sub": name, "case": c})
    ev = {
        "property": prop.pid, "tier": tier, "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontriv,
            "rule": rule or "see DESIGN.md",
            "samples": samples,
            "subs": {n: {"evaluations": g["evaluations"],
                         "distinct_nontrivial": len(g["nontrivial"]),
                         "rejected": g["rejected"],
                         "skipped_out_of_time": g["skipped"],
                         "labels": dict(sorted(g["labels"].items()))}
                     for n, g in sorted(agg.items())},
            "failed_once_not_again": state["once"],
            "known_findings_seen": len(state["known"]),
            "tasks_out_of_time": ["%s/%s" % (k[0], k[1]) for k in timed_out],
        },
        "assumptions": ["exploration: absence of a counterexample among the "
                        "generated cases, not a proof"],
        "wall_s": round(wall, 2),
        "violations": 1 if state["violation"] else 0,
    }
    os.makedirs(os.path.join(core.HERE, "evidence"), exist_ok=True)
    with open(os.path.join(core.HERE, "evidence", prop.pid + ".json"),
              "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for what in state["known"]:
        print("KNOWN-FINDING: property=%s %s" % (prop.pid, what))
    if a.v:
        for n, g in sorted(agg.items()):
            print(n, g["evaluations"], "eval", len(g["nontrivial"]), "nontr",
                  g["rejected"], "rej", g["skipped"], "skip",
                  dict(sorted(g["labels"].items())))
    if state["violation"]:
        sub, fail = state["violation"]
        os.makedirs(os.path.join(core.HERE, "replays"), exist_ok=True)
        path = os.path.join("replays", "%s-%s.json" % (prop.pid, sub))
        with open(os.path.join(core.HERE, path), "w") as f:
            json.dump({"property": prop.pid, "sub": sub, "case": fail["case"],
                       "error": fail["error"]}, f, indent=1)
            f.write("\n")
        print("case: %s" % core.canon(fail["case"])[:2000])
        print(fail["error"][-2500:])
        print("VIOLATION property=%s replay=%s" % (prop.pid, path))
        return 1
    if state["errors"]:
        for e in state["errors"]:
            print("ERROR", e)
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s%s" % (
        prop.pid, evaluations, nontriv, wall,
        "; out of time: %s" % timed_out if timed_out else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
