"""Common driver of the checks: obligations, known findings, evidence, exit codes.

Exit 0: every obligation proved or undecided-without-refutation, or a listed known finding.
Exit 1: a violation (VIOLATION line).  Exit 2: the analysis itself is broken (anchor vanished).
"""
import json, os, sys, time, re, traceback, multiprocessing, signal
from prog import VERIF, REPO, AnalysisBroken

EVID = os.environ.get("VERIF_EVIDENCE", VERIF + "/evidence")


class Ob:
    """one obligation: where the construct is, what was required, and the verdict"""
    __slots__ = ("rule", "key", "where", "verdict", "detail")
    def __init__(s, rule, key, where, verdict, detail=""):
        s.rule = rule; s.key = key; s.where = where; s.verdict = verdict; s.detail = detail


def known():
    """(property, key) -> text for recorded findings"""
    r = {}
    p = VERIF + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", ln.strip())
            if m: r[(m.group(1), m.group(2))] = m.group(3)
    return r


def key_of(s): return re.sub(r"[^A-Za-z0-9_.,:()<>*&=+/|!~^%-]", "", s.replace("Ariadne::", "").replace("operator ", "operator"))


def pmap(f, xs, jobs=8):
    """map in forked workers (the loaded program is shared copy-on-write)"""
    xs = list(xs)
    if len(xs) < 16 or os.environ.get("VERIF_JOBS") == "1": return [f(x) for x in xs]
    global _F, _XS
    _F, _XS = f, xs
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(jobs) as pool:
        return pool.map(_call, range(len(xs)), chunksize=1 if len(xs) < 3000 else max(1, len(xs) // (jobs * 8)))


T0 = time.time()
class TimeUp(Exception): pass
def _alarm(*a): raise TimeUp("time budget of the obligation used up")


def _call(i):
    """one obligation, within a share of the time a check has: what is not decided by then stays undecided"""
    quick = os.environ.get("VERIF_TIER", "quick") == "quick" and "--thorough" not in sys.argv
    left = (600 if quick else 6 * 3600) - (time.time() - T0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(4, min(left, 240 if quick else 3600)), 20)
    try: return _F(_XS[i])
    except TimeUp: return Ob("time", "obligation %d" % i, "", "undecided", "time budget used up")
    finally: signal.setitimer(signal.ITIMER_REAL, 0)


def main(prop, title, rule, decide, floor, level="other", assumptions=(), trusted=()):
    """run decide(tier) -> (list of Ob, coverage dict) and report"""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    try:
        obs, cov = decide(tier)
        if len(obs) < floor: raise AnalysisBroken("only %d obligations found, at least %d expected: an anchor has moved" % (len(obs), floor))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN property=%s internal error" % prop); sys.exit(2)
    kn = known()
    bad = [o for o in obs if o.verdict == "violated"]
    new = [o for o in bad if (prop, key_of(o.key)) not in kn]
    old = [o for o in bad if (prop, key_of(o.key)) in kn]
    proved = sum(o.verdict == "proved" for o in obs)
    und = [o for o in obs if o.verdict == "undecided"]
    ex = {}
    for o in obs: ex.setdefault((o.rule, o.verdict), o)
    coverage = dict(cov)
    coverage.update({
        "explanation": rule, "obligations": len(obs), "discharged": proved, "undecided": len(und), "known_findings": len(old),
        "rules": {r: {v: sum(1 for o in obs if o.rule == r and o.verdict == v) for v in ("proved", "undecided", "violated") if any(o.rule == r and o.verdict == v for o in obs)} for r in sorted(set(o.rule for o in obs))},
        "samples": [{"rule": o.rule, "construct": o.key[:300], "where": o.where, "verdict": o.verdict, "detail": o.detail[:400]} for o in list(ex.values())[:24]],
        "undecided_constructs": [{"construct": o.key[:200], "where": o.where, "why": o.detail[:200]} for o in und[:400]],
        "checker_cmd": "python3 checks/%s.py" % prop, "trusted_base": list(trusted) + ["clang 18 front end (parsing, overload resolution, template instantiation)", "tool/extract.cpp, lib/*.py"]})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": coverage, "wall_s": round(time.time() - t0, 2), "violations": len(new), "assumptions": list(assumptions)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(EVID + "/%s.json" % prop, "w"), indent=1)
    seen = set()
    for o in old:
        k = key_of(o.key)
        if k in seen: continue
        seen.add(k)
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, o.where, kn[(prop, k)]))
    if new:
        rp = EVID + "/%s.violations.txt" % prop
        with open(rp, "w") as f:
            f.write("property %s: %s\nrule: %s\n\n" % (prop, title, rule))
            for o in new: f.write("%s\n  construct: %s\n  rule: %s\n  finding: %s\n  key: %s\n\n" % (o.where, o.key, o.rule, o.detail, key_of(o.key)))
            f.write("re-run: cd /verif && python3 checks/%s.py\n" % prop)
        for o in new[:12]: print("%s: [%s] %s: %s" % (o.where, o.rule, o.key[:200], o.detail[:600]))
        if len(new) > 12: print("... and %d more (see the replay file)" % (len(new) - 12))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("OK property=%s obligations=%d proved=%d undecided=%d wall=%.1fs" % (prop, len(obs), proved, len(und), time.time() - t0))
    sys.exit(0)
