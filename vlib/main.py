"""Command line of every check: ./check C01 [quick|thorough] | --replay FILE"""
import os, sys, json, time, importlib, collections, traceback, signal, resource
from . import boot


class Known:
    def __init__(self, d):
        self.d = d
        self.id = d["id"]

    def matches(self, prop, facet, case, msg):
        d = self.d
        if d.get("status") != "known" or d.get("property") != prop or d.get("facet") != facet:
            return False
        from . import known_match
        fn = getattr(known_match, d["match"], None)
        return bool(fn and fn(case, msg))


def load_known():
    p = os.path.join(boot.HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [Known(d) for d in json.load(open(p))["findings"]]


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    prop = args[0]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    i = 1
    while i < len(args):
        if args[i] == "--replay":
            replay = args[i + 1]
            i += 1
        elif args[i] == "--facet":
            only = args[i + 1]
            i += 1
        elif args[i] in ("quick", "thorough"):
            tier = args[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    real_out = os.fdopen(os.dup(1), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)                       # redrock chatters on stdout

    def say(*a):
        print(*a, file=real_out, flush=True)

    boot.setup()
    from . import core
    mod = importlib.import_module("checks." + prop.lower())
    facets = mod.FACETS
    byname = {f.name: f for f in facets}
    known = load_known()
    for f in facets:
        if f.setup:
            try:
                f.setup()
            except Exception:       # it only compiles; the cases of the facet judge
                traceback.print_exc()

    if replay:
        d = json.load(open(replay))
        f = byname[d["facet"]]
        pid = os.fork()
        if pid:
            _, st = os.waitpid(pid, 0)
            if os.WIFSIGNALED(st):
                say("replayed: ended by signal %d (%d: no answer after %.0f s of computing)" % (os.WTERMSIG(st), signal.SIGXCPU, core.HANG_CPU))
                say("VIOLATION property=%s replay=%s" % (prop, replay))
                return 1
            return os.WEXITSTATUS(st)
        hard = resource.getrlimit(resource.RLIMIT_CPU)[1]
        used = resource.getrusage(resource.RUSAGE_SELF).ru_utime
        resource.setrlimit(resource.RLIMIT_CPU, (int(used + core.HANG_CPU), hard))
        try:
            core.run_case(f, d["case"], core.Ctx(replay=True), boot.REPO)
        except core.Violation as v:
            say("replayed: %s" % v)
            traceback.print_exc()
            say("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        say("replay passes: property=%s" % prop)
        return 0

    jobs = []
    for f in facets:
        if only and f.name != only:
            continue
        ns = f.shards if tier == "quick" else f.thorough_shards
        tot = f.quick if tier == "quick" else f.thorough
        per = max(1, int(round(tot * scale / ns)))
        for s in range(ns):
            sd = core._shard_seed(seed, prop, f.name, s)
            jobs.append(((f.name, s), (lambda cur, f=f, s=s, sd=sd, per=per:
                         core._run_shard(prop, f, s, per, sd, boot.REPO, cur,
                                         20.0 if tier == "quick" else 60.0, known))))
    # saved known findings are re-run one by one, so that their lines appear every time
    kjobs = [k for k in known if k.d.get("property") == prop and k.d.get("status") == "known"
             and k.d["facet"] in byname]
    for k in kjobs:
        def run_known(cur, k=k):
            f = byname[k.d["facet"]]
            try:
                core.run_case(f, k.d["case"], core.Ctx(), boot.REPO)
            except core.Violation as v:
                return dict(known_id=k.id, reproduced=True, message=str(v),
                            matched=k.matches(prop, f.name, k.d["case"], str(v)))
            return dict(known_id=k.id, reproduced=False)
        jobs.append((("known", k.id), run_known))

    timeout = float(os.environ.get("VERIF_TIMEOUT", "820" if tier == "quick" else "7000"))
    out = core.Pool().run(jobs, timeout)

    evals = 0
    nontriv = set()
    labels = collections.OrderedDict()
    samples = []
    rules = []
    failures = []
    errors = []
    knownhits = collections.Counter()
    per_facet = collections.OrderedDict((f.name, dict(evaluations=0, nontrivial=0)) for f in facets)
    for (key, _), r in zip(jobs, out):
        if r is None:
            continue
        if "known_id" in r:
            if r["reproduced"] and r["matched"]:
                k = [k for k in kjobs if k.id == r["known_id"]][0]
                say("KNOWN-FINDING: property=%s %s" % (prop, k.d["what"]))
            elif r["reproduced"]:
                failures.append((key, dict(case=None, message=r["message"], traceback="")))
            continue
        if r.get("timeout"):
            errors.append("shard %s ran out of time (inconclusive) on case %s"
                          % (key, json.dumps(r.get("case"))[:2000]))
            continue
        if r.get("died") is not None:
            st = r["died"]
            if r.get("hung"):
                failures.append((key, dict(case=r["case"], message="no answer after %.0f s of computing on one case: an endless loop" % core.HANG_CPU, traceback="")))
            elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT) \
                    and r["case"] is not None:
                failures.append((key, dict(case=r["case"], message="process killed by signal %d"
                                           % os.WTERMSIG(st), traceback=r["log"])))
            else:
                errors.append("shard %s died (status %s)\n%s" % (key, st, r["log"]))
            continue
        evals += r["evals"]
        per_facet[r["facet"]]["evaluations"] += r["evals"]
        nt = set(r["facet"] + ":" + h for h in r["nontrivial"])
        per_facet[r["facet"]]["nontrivial"] += len(nt - nontriv)
        nontriv |= nt
        for l, c in r["labels"].items():
            labels[r["facet"] + ":" + l] = labels.get(r["facet"] + ":" + l, 0) + c
        if sum(1 for s in samples if s["facet"] == r["facet"]) < 2:
            for s in r["samples"][:1]:
                samples.append(dict(facet=r["facet"], case=s))
        for k, c in r["known"].items():
            knownhits[k] += c
        if r["failure"]:
            failures.append((key, r["failure"]))
        if r["error"]:
            errors.append("shard %s: %s" % (key, r["error"]))

    nviol = 0
    seen = set()
    lines = []
    for key, fl in failures:
        d = os.path.join(boot.HERE, "replays")
        os.makedirs(d, exist_ok=True)
        if key[0] in seen:
            continue
        seen.add(key[0])
        path = os.path.join(d, "%s-%s.json" % (prop, key[0]))
        with open(path, "w") as f:
            json.dump(dict(property=prop, facet=key[0], case=fl["case"], message=fl["message"],
                           seed=seed, tier=tier), f, indent=1)
        nviol += 1
        say("violation in facet %s: %s" % (key[0], fl["message"]))
        sys.stderr.write(fl["traceback"] + "\n")
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    rule = " | ".join("%s: %s" % (f.name, f.rule) for f in facets)
    cov = dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=rule, samples=samples,
               per_facet=per_facet, classes=dict(sorted(labels.items())))
    if knownhits:
        cov["excluded_known_findings"] = dict(knownhits)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2),
              violations=nviol)
    os.makedirs(os.path.join(boot.HERE, "evidence"), exist_ok=True)
    with open(os.path.join(boot.HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        say(l)
    for e in errors[:2]:
        sys.stderr.write("ERROR: %s\n" % e[-3000:])
    say("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %d errors, %.1f s"
        % (prop, tier, seed, evals, len(nontriv), nviol, len(errors), time.time() - t0))
    if nviol:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush() if not sys.stdout.closed else None
    os._exit(rc)
