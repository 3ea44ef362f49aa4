"""Record one shard of a property's sessions:  drive.py PID SHARD NSHARDS OUT TIER SEED"""
import json
import random
import sys
import traceback

import torch

import lib
import gen


def main():
    pid, shard, n, out, tier, seed = sys.argv[1:]
    shard, n, seed = int(shard), int(n), int(seed)
    scripts = gen.scripts(pid, tier, seed)
    with open(out, "w") as f:
        base = 0
        for i, fn in enumerate(scripts):
            if i % n != shard:
                continue
            rng = random.Random("%d:%s:%d" % (seed, pid, i))
            torch.manual_seed(rng.randrange(2 ** 31))
            rec = lib.Rec()
            rec.n = base
            try:
                fn(rng, rec)
                stop = False
            except lib.Enough:
                stop = True
            except Exception as e:  # an answer of a shape or type the script cannot go on with
                stop = False
                rec.add(dict(op="script", st="cannot go on: " + type(e).__name__, msg=traceback.format_exc()[-400:]))
            base = rec.n
            for e in rec.events:
                f.write(json.dumps(e) + "\n")
            if stop:
                break


main()
