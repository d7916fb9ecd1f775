"""Command line: runs the engine of one property, writes its evidence, reports."""
import json
import os
import random
import shutil
import sys
import time
import traceback

from . import build, diff, dprops
from .build import Inconclusive
from .diff import Violation


def known(pid):
    """Known findings of a property: [(kind, identification, text)]."""
    p = os.path.join(build.VERIF, "known-findings.json")
    return [k for k in json.load(open(p)) if k["property"] == pid and k["status"] == "open"]


def diff_cov(st):
    sites = {}
    for (kind, state, path), n in sorted(st.sites.items()):
        sites.setdefault(state, {}).setdefault(kind, 0)
        sites[state][kind] += n
    return {
        "evaluations": st.runs,
        "distinct_nontrivial": len(st.traces),
        "rule": "an execution of a generated annotated program, compared event by event with its hand-hooked "
                "reference on the same fault tape; distinct = different (program, event sequence)",
        "samples": st.samples[:4],
        "programs": st.units,
        "programs_rejected": st.rejected,
        "reject_reasons": dict(st.reject_msgs.most_common(6)),
        "events_compared": st.events,
        "hook_events": st.hook_events,
        "panicking_runs": st.panics,
        "hook_sites": sites,
        "distinct_site_positions": len({(k[0], k[1], k[2]) for k in st.sites}),
        "distinct_program_shapes": len(st.labels),
    }


# projects of earlier editions
EDITIONS = [{"edition": "2021"}, {"edition": "2018"}, {"edition": "2021"}]


def diff_check(pid, tier, seed):
    spec = dprops.REG[pid]()
    rng = random.Random("%s/%s" % (pid, seed))
    units = dprops.build_units(spec, tier, rng)
    st, vs = diff.run_units(units, pid, toml=spec.toml, cq=spec.cq, seed=str(seed), per=spec.per,
                            max_reject=spec.max_reject, features=spec.features, opts=spec.opts,
                            extra=EDITIONS * (1 if tier == "quick" else 8))
    cov = diff_cov(st)
    enough = st.units and st.events and (st.hook_events or spec.silent)
    return cov, vs, enough


def engines():
    from . import determinism, excerpts, features, flavors, invalid, presets, spans
    return {"C12": flavors.run, "C13": presets.run, "C14": excerpts.run, "C17": determinism.run, "C18": invalid.run, "C19": spans.run, "C20": features.run}


def run_property(pid, tier, seed):
    e = engines()
    if pid in e:
        return e[pid](tier, seed)
    return diff_check(pid, tier, seed)


def save(pid, v, i):
    d = os.path.join(build.BUILD, "replay", "%s-%d" % (pid, i))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in v.files:
        if os.path.isfile(f):
            shutil.copy(f, d)
    with open(os.path.join(d, "report.txt"), "w") as f:
        f.write(v.what + "\n\n" + v.detail + "\n")
    return os.path.join(d, "report.txt")


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    try:
        cov, vs, enough = run_property(pid, tier, seed)
    except Violation as v:
        cov = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended at the violation", "samples": [v.what]}
        vs, enough = [v], True
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (pid, e), file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    ev = {"property": pid, "tier": tier, "seed": int(seed) if seed.isdigit() else seed, "level": "exploration",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(vs)}
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(build.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if vs:
        for i, v in enumerate(vs[:5]):
            p = save(pid, v, i)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  " + v.what)
            print("\n".join("  " + l[:400] for l in v.detail.split("\n")[:60]))
        return 1
    if not enough:
        print("INCONCLUSIVE property=%s nothing observed" % pid, file=sys.stderr)
        return 3
    print("OK property=%s tier=%s %s" % (pid, tier, " ".join("%s=%s" % (k, cov[k]) for k in cov if isinstance(cov[k], int))))
    return 0
