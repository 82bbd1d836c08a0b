#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Anything else: no answer."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common  # noqa: E402
import core  # noqa: E402
import conc  # noqa: E402
import suite  # noqa: E402
import tables  # noqa: E402

RUN = {"C22": tables.run, "C23": tables.run, "C24": tables.run, "C27": tables.run, "C28": tables.run, "C29": tables.run_together, "C17": conc.run, "C26": suite.run}


def main():
    pid = sys.argv[1]
    if sys.argv[2:] == ["thorough"]:
        os.environ["VERIF_TIER"] = "thorough"
    ctx = common.Ctx(pid)
    try:
        sys.exit(RUN.get(pid, core.run)(ctx))
    except common.Broken as e:
        print("NO ANSWER:", e, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


if __name__ == "__main__":
    main()
