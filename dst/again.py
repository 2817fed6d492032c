"""Second process: re-run given indices and print their digests as JSON."""
import json
import os
import sys

from dst import boot


def main():
    prop, tier, seed, idx = sys.argv[1:5]
    boot.load(prop)
    from dst import runner
    mod = runner.load_check(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    out = {}
    todo = [int(i) for i in idx.split(",")]
    batches = [(i, [runner.plan_for(mod, prop, int(seed), i, tier)])
               for i in todo]
    for key, _, runs in runner.pool(mod, batches, lambda: False):
        out[key] = runs[-1].get("stats", {}).get("digest")
    print(json.dumps(out))
    sys.stdout.flush()
    os._exit(0)


main()
