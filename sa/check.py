"""python3 sa/check.py <property> [quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
from registry import PROPS  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, fn = PROPS[prop]
    m = importlib.import_module("props." + mod)
    sys.exit(core.run(prop, tier, getattr(m, fn)))


if __name__ == "__main__":
    main()
