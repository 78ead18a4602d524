"""Worker process: runs the lane shards of one backend given as JSON on argv[1]."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    spec = json.load(open(sys.argv[1]))
    from nnv import common, registry

    res = []
    try:
        mod = registry.load(spec["check"]) if not spec["backend"] else None
        nn = None if getattr(mod, "NO_IMPORT", False) else common.import_nannos()
        if spec["backend"] and nn.get_backend() != spec["backend"]:
            raise common.Violation(
                f"NANNOS_BACKEND={spec['backend']} selects {nn.get_backend()}"
            )
        lanes = {l.name: l for l in registry.load(spec["check"]).lanes()}
        for lane, shard, n, seed in spec["tasks"]:
            t0 = time.time()
            o = common.search(lanes[lane], seed, n).as_dict()
            o.update(lane=lane, shard=shard, backend=spec["backend"], wall=time.time() - t0)
            res.append(o)
            if o["failure"] or o["error"]:
                break
    except common.Violation as v:
        res.append(dict(lane="import", backend=spec["backend"], failure=dict(case=None, message=str(v)), error=None))
    except Exception as e:
        tb = traceback.format_exc()[-4000:]
        if common.from_code_under_test(e):
            res.append(dict(lane="import", backend=spec["backend"], failure=dict(case=None, message="import failed: " + tb[-600:]), error=None))
        else:
            res.append(dict(lane="?", backend=spec["backend"], failure=None, error=tb))
    with open(sys.argv[2], "w") as f:
        json.dump(res, f, default=str)


if __name__ == "__main__":
    main()
