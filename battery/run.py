"""usage: run.py PID [--seed N] [--tier quick|thorough]   (prints one JSON object; run with /opt/venv/bin/python)"""
import argparse, importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
ap.add_argument("pid")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--tier", default="quick")
a = ap.parse_args()
from battery import lib  # noqa: E402
GROUPS = ["scalars", "structured", "unions", "settings_", "flow", "schemas", "whole"]
for g in GROUPS:
    try:
        m = importlib.import_module("battery." + g)
    except ModuleNotFoundError as exc:
        if exc.name != "battery." + g:
            raise
        continue
    if hasattr(m, a.pid.lower()):
        res = lib.run_check(a.pid, a.seed, a.tier, m, importlib.import_module("battery.more"), importlib.import_module("battery.odd"), importlib.import_module("battery.rare"), importlib.import_module("battery.extra"))
        json.dump(res, sys.stdout, default=repr)
        sys.exit(0)
sys.exit(f"no battery for {a.pid}")
