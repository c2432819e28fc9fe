"""Writes MANIFEST.json from lib/checks.txt and the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {}
for l in open(V + "/lib/checks.txt"):
    if l.strip():
        have[l.split()[0]] = l.split()[1]
T = {}
exec(open(V + "/tools/techniques.py").read(), T)
T = T["T"]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines() if "verification hook:" in l]
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "cfg posy_verif", "enable": "cargo rustc --bin posy -- --cfg posy_verif with POSY_VERIF_DRIVER=/verif/harness/driver.rs (see build.sh)", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check for this property is still being built"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
