"""List planted bugs whose removed lines all come from our own fix commits (these do not count)."""
import subprocess, pathlib, re, sys
BASE = "2688de3"
for d in sorted(pathlib.Path("/verif/seeded").iterdir()):
    f, rem, add = None, [], []
    for l in (d / "patch.diff").read_text().splitlines():
        if l.startswith("--- "): f = l[6:]
        elif l.startswith("+++ "): f = l[6:]
        elif l.startswith("-"): rem.append((f, l[1:].strip()))
        elif l.startswith("+"): add.append((f, l[1:].strip()))
    ok = False
    for f, l in rem:
        src = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout
        if l and not l.startswith("#") and l in [x.strip() for x in src.splitlines()]: ok = True
    if not ok: print(d.name, "removed:", [l for _, l in rem])
