import importlib
import os
import sys
import traceback

from harness.common import Check, MachineryError

MODULES = {
    "P01": "c_gmres", "P02": "c_gmres", "P03": "c_time", "P04": "c_time", "P05": "c_quad", "P06": "c_time",
    "P07": "c_forms", "P08": "c_forms", "P09": "c_forms", "P10": "c_forms", "P11": "c_march", "P12": "c_march", "P13": "c_life", "P14": "c_rhs", "P15": "c_rhs", "P16": "c_forms", "P17": "c_forms", "P18": "c_errors", "P19": "c_twolevel", "P20": "c_drivers", "P21": "c_meshes", "P22": "c_meshes", "P23": "c_errors", "P24": "c_drivers", "P25": "c_settings",
}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ck = Check(prop, tier)
    try:
        getattr(importlib.import_module("harness." + MODULES[prop]), "check_" + prop)(ck)
    except MachineryError as e:
        print(f"ERROR property={prop} {e}", file=sys.stderr)
        sys.exit(2)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        sys.exit(2)
    sys.exit(ck.finish())


if __name__ == "__main__":
    main()
