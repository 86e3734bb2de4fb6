#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Broken, Check  # noqa: E402
import search  # noqa: E402
import structures  # noqa: E402
import graphs  # noqa: E402
import service  # noqa: E402
import readers  # noqa: E402
import pipeline  # noqa: E402
import network  # noqa: E402
import converter  # noqa: E402
import report  # noqa: E402
import compare  # noqa: E402
import layers  # noqa: E402

CHECKS = {p: search.check_search for p in search.SEARCH}
CHECKS.update(C15=structures.check_heap, C16=structures.check_forest, C17=structures.check_lists)
CHECKS.update(C12=graphs.check_mst, C14=graphs.check_sort)
CHECKS.update(C20=service.check_memory, C21=service.check_probabilities)
CHECKS.update(C18=readers.check_matrix, C19=readers.check_tsplib)
CHECKS.update(C22=pipeline.check_pipeline)
CHECKS.update(C23=network.check_network)
CHECKS.update(C28=network.check_question)
CHECKS.update(C29=layers.check_layers)
CHECKS.update(C24=report.check_report)
CHECKS.update(C27=compare.check_comparison)
CHECKS.update(C25=converter.check_converter)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    check = Check(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        level = CHECKS[prop](check)
        return check.finish(level)
    except Broken as e:
        print("BROKEN %s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(check.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
