"""usage: add_fixed.py PROP COMMIT...  -- map fix commits of /repo to the property they repair."""
import json
import subprocess
import sys

p = "tools/fixed_properties.json"
d = json.load(open(p))
for c in sys.argv[2:]:
    s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s", c], text=True).strip()
    assert s.startswith("fix: "), s
    d[s[5:]] = sys.argv[1]
open(p, "w").write("{\n" + ",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in d.items()) + "\n}\n")
