"""python3 note_seeded.py ID 'text': records in seeded_results.json which check caught a planted bug"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeded_results.json")
d = json.load(open(p)) if os.path.exists(p) else {}
d[sys.argv[1]] = sys.argv[2]
json.dump(d, open(p, "w"), indent=1, sort_keys=True)
