"""Usage: regprop.py ID TECHNIQUE NOTE: edit techniques.json and MANIFEST.json."""
import json, subprocess, sys
d = json.load(open("/verif/techniques.json"))
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(dict(sorted(d.items())), open("/verif/techniques.json", "w"), indent=1)
subprocess.run([sys.executable, "/verif/mkmanifest.py"], check=True)
