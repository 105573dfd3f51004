"""developer helper: commit a repair in /repo and record it in known_findings.json
usage: fixc.py <property> <commit message without 'fix: '> <what failed> <file>..."""
import json, subprocess, sys
pid, msg, what, files = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
F = "/verif/known_findings.json"
try: d = json.load(open(F))
except FileNotFoundError: d = {"findings": []}
if files:
    subprocess.check_call(["git", "-C", "/repo", "commit", "-q", "-m", "fix: " + msg, "--"] + files)
    h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
else:
    h = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "--fixed-strings", "--grep", "fix: " + msg], text=True).split()[0]
d["findings"].append(dict(status="fixed", property=pid, commit=h, what=what, line="fixed: property=%s %s %s" % (pid, h, what)))
json.dump(d, open(F, "w"), indent=1)
print(h)
