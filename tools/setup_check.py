"""setup_cmd: nothing to build; makes sure every monitor module loads and imports tftb from /repo."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path[:0] = [HERE, "/repo"]
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
n = 0
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    mod = importlib.import_module("tfmon.props." + pid.lower())
    assert mod.ID == pid, pid
    n += 1
print(n, "monitors load")
