"""Entry point: python -m mc.main <property> <tier> | --replay <file>."""

import json
import os
import sys
import warnings

warnings.simplefilter("ignore")


def load_third_party():
    """Import everything daisy needs (with normal bytecode caching), then make sure that daisy itself is always
    compiled from /repo's current sources."""
    import numpy  # noqa
    import dill  # noqa
    import tqdm.auto  # noqa
    import tornado.ioloop, tornado.iostream, tornado.tcpclient, tornado.tcpserver  # noqa
    import funlib.geometry, funlib.math  # noqa

    import logging

    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, os.environ.get("DAISY_REPO", "/repo"))


def main():
    load_third_party()
    from . import checks, core

    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            rec = json.load(f)
        spec = rec["replay"]
        checks.prepare(spec["func"])
        res = core.resolve(spec["func"])(*spec["args"], **spec.get("kw", {}))
        if isinstance(res, tuple):
            res = res[0]
        for v in res.violations:
            print(v.what)
            for line in v.trace:
                print("   ", line)
        print("reproduced" if res.violations else "not reproduced")
        sys.exit(1 if res.violations else 0)

    prop, tier = sys.argv[1], sys.argv[2]
    c = checks.CHECKS[prop]
    jobs = list(c["jobs"](tier))
    rc = core.run_check(
        prop,
        tier,
        jobs,
        level="model_checking",
        bound=c["bound"],
        assumptions=c["assumptions"],
        budget=c.get("budget", 400 if tier == "quick" else 3000),
    )
    sys.exit(rc)


if __name__ == "__main__":
    main()
