#!/usr/bin/env python3
"""tsan.py OUT EVIDENCE: read a ThreadSanitizer run's output; a report with a frame in the RustQuant crates fails."""
import json, os, re, sys
out, ev = open(sys.argv[1], errors="replace").read(), sys.argv[2]
reports = [r for r in out.split("==================") if "WARNING: ThreadSanitizer" in r]
mine = [r for r in reports if "/repo/crates/" in r]
m = re.search(r"schedules observed: (\d+)", out)
d = json.load(open(ev))
d["coverage"]["observed"].update({"tsan run finished": int("OK property=C28" in out), "tsan schedules": int(m.group(1)) if m else 0,
    "tsan reports": len(reports), "tsan reports with a frame in the crates": len(mine)})
json.dump(d, open(ev, "w"), indent=1)
if mine:
    os.makedirs("evidence/replay", exist_ok=True)
    open("evidence/replay/C28.tsan.txt", "w").write("\n".join(mine))
    print("VIOLATION property=C28 replay=" + os.path.abspath("evidence/replay/C28.tsan.txt"))
    print("\n".join(mine[0].splitlines()[:12]))
    sys.exit(1)
print(f"OK property=C28 under ThreadSanitizer: {len(reports)} reports, none in the crates")
