"""check <property> [--only scenario]"""
import importlib
import os
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
import common  # noqa: E402

if __name__ == '__main__':
    prop = sys.argv[1]
    if '--only' in sys.argv:
        os.environ['VERIF_ONLY'] = sys.argv[sys.argv.index('--only') + 1]
    from registry import CHECKS
    mod, fun = CHECKS[prop]
    sys.exit(common.main(prop, getattr(importlib.import_module(mod), fun)))
