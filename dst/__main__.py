"""python -m dst PROPERTY [--tier quick|thorough] [--seed N] [--runs N]
          | python -m dst replay FILE
          | python -m dst plan PROPERTY INDEX
"""
import argparse
import os
import sys

from dst import boot


def main():
    par = argparse.ArgumentParser()
    par.add_argument("what")
    par.add_argument("rest", nargs="*")
    par.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    par.add_argument("--seed", type=int,
                     default=int(os.environ.get("VERIF_SEED", "1")))
    par.add_argument("--runs", type=int)
    par.add_argument("--only")
    args = par.parse_args()
    if "DST_BOOTED" not in os.environ:
        return boot.launch(sys.argv[1:])
    import json
    if args.what == "replay":
        with open(args.rest[0]) as fin:
            prop = json.load(fin)["property"]
        boot.load(prop)
        from dst import runner
        return runner.replay(args.rest[0])
    from dst import runner
    if args.what == "plan":
        boot.load(args.rest[0])
        mod = runner.load_check(args.rest[0])
        print(json.dumps(runner.plan_for(mod, args.rest[0], args.seed,
                                         int(args.rest[1]), args.tier)))
        return 0
    if args.what == "selftest":
        boot.load("all")
        from dst import selftest
        return selftest.main()
    boot.load(args.what)
    only = None if args.only is None else [int(i) for i in
                                           args.only.split(",")]
    return runner.execute(args.what, args.tier, args.seed, args.runs, only)


if __name__ == "__main__":
    code = 2
    try:
        code = main()
    except SystemExit as err:
        code = err.code
    except BaseException:
        import traceback
        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    if "DST_BOOTED" in os.environ:
        os._exit(code)
    sys.exit(code)
