"""Short listing of the last violations of a property (development aid)."""
import json, os, sys
W = int(sys.argv[2]) if len(sys.argv) > 2 else 300
for v in json.load(open(f"{os.environ.get('VERIF_EVIDENCE', '/verif/evidence')}/{sys.argv[1]}.violations.json")):
    print("---", v.get("kind"), str(v.get("init", ""))[:W])
    evs = v.get("events", [])
    for e in evs[:-1]:
        print("   ", str({k: x for k, x in e.items() if k != "obs"})[:W])
    for e in evs[-1:]:
        print("  >>", str({k: x for k, x in e.items() if k != "obs"})[:W])
        print("  obs", str(e.get("obs"))[:W])
    print("  exp", str(v.get("expected"))[:W])
    print("  err", (v.get("error") or v.get("failed") or v.get("key") or "")[-W:])
