import os
import sys


def main(argv):
    if not argv:
        print("usage: check.sh <property> [quick|thorough] | replay <file> | case <property> <index>", file=sys.stderr)
        return 2
    from . import seams
    seams.install()          # before ahkab (and its imports) are loaded
    from . import core, sched
    try:
        with sched.sim_locks():
            import ahkab        # the tree under test: /repo's working tree
            import ahkab.ahkab, ahkab.testing
    except Exception as e:
        print("HARNESS ERROR: cannot import ahkab: %r" % (e,), file=sys.stderr)
        return 2
    assert os.path.realpath(ahkab.__file__).startswith(os.path.realpath(os.environ.get("SIM_REPO", "/repo"))), ahkab.__file__
    try:
        from ahkab import gear  # noqa: loaded up front where it can be
    except Exception:
        pass
    if argv[0] == "setup":
        from . import circ
        c = circ.build({"els": [["V", "V1", "a", "0", 1.0, 0, None], ["R", "R1", "a", "0", 1e3]]})
        r = ahkab.run(c, [ahkab.new_op()])
        print("ahkab imported from %s, operating point %s" % (ahkab.__file__, dict(r["op"].items())))
        return 0
    i = 1 if argv[0] in ("case", "survey") else 0
    if len(argv) > i and os.path.exists(os.path.join(os.path.dirname(__file__), "checks", argv[i].lower() + ".py")):
        argv[i] = argv[i].upper()          # the seed is derived from the name: one spelling
    if argv[0] == "replay":
        return core.replay(argv[1])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if argv[0] == "case":
        import json
        mod = core.load_check(argv[1])
        if hasattr(mod, "prepare"):
            mod.prepare("quick")
        case = mod.gen(core.rng_for(seed, argv[1], int(argv[2])), "quick")
        print(json.dumps(case))
        out = core.run_case(argv[1], case)
        for k in out:
            print(k, ":", out[k])
        return 1 if out["viol"] else 0
    if argv[0] == "survey":
        return core.survey(argv[1], int(argv[2]), seed, argv[3] if len(argv) > 3 else "quick")
    if argv[0] == "selftest":
        from . import selftest
        return selftest.main(argv[1:])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return core.check(argv[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
