"""corpus.py REPLAY NAME: keeps the case of a replay file as a regression case."""
import json, sys, os
r = json.load(open(sys.argv[1]))
d = f"/verif/corpus/{r['property']}"
os.makedirs(d, exist_ok=True)
json.dump(dict(note=r["message"][:200], case=r["case"]), open(f"{d}/{sys.argv[2]}.json", "w"), indent=1)
