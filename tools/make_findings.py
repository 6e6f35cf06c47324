"""Writes the fixed entries of known_findings.jsonl from the fix: commits in /repo (run by hand)."""
import json
import subprocess
from pathlib import Path

V = Path(__file__).resolve().parents[1]
PROPS = json.loads((V / "tools" / "fixed_properties.json").read_text())  # subject -> property
out = [x for x in (V / "known_findings.jsonl").read_text().splitlines() if x.strip() and json.loads(x)["status"] == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, subject = line.split(" ", 1)
    if subject.startswith("fix: "):
        what = subject[5:]
        p = PROPS[what]
        out.append(json.dumps(dict(status="fixed", property=p, commit=h, what=what,
                                   line=f"fixed: property={p} {h} {what}")))
(V / "known_findings.jsonl").write_text("\n".join(out) + "\n")
print(len(out))
