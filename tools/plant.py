#!/usr/bin/env python3
"""Tries a planted bug of /verif/seeded/<id> without touching /repo: in copies of
/repo and /verif bind-mounted over them in a mount namespace of its own.
   plant.py ID [CHECK ...]    build, stable tests, demo with the patch, then the checks
   plant.py --checks-only ID CHECK ...   (no build / tests)
"""
import json, os, shutil, subprocess, sys

S = "/tmp/seed"
INNER = r'''
set -u
mount --bind "$SR" /repo && mount --bind "$SV" /verif || exit 9
if [ "$ONLY" = 0 ]; then
  bash /opt/vp/build.sh > "$LOG/build.log" 2>&1 || { echo "BUILD FAILS"; tail -5 "$LOG/build.log"; exit 1; }
  bash /opt/vp/test.sh "$LOG/OUT.json" > "$LOG/test.log" 2>&1
  python3 - "$LOG/OUT.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
m=sorted(set(b['stable'])-set(o['passed'])); print("stable tests missing:", m)
P
  bash "$DEMO/demo.sh" > "$LOG/demo.log" 2>&1; echo "demo with patch: $?"; tail -3 "$LOG/demo.log"
fi
for c in $CHECKS; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py $c --tier quick > "$LOG/$c.log" 2>&1; echo "check $c: $?"; grep -m2 VIOLATION "$LOG/$c.log"; grep -m1 -A1 VIOLATION "$LOG/$c.log" | tail -1 | cut -c1-300
done
'''


def main():
    a = sys.argv[1:]
    only = "0"
    if a[0] == "--checks-only":
        only, a = "1", a[1:]
    bid, checks = a[0], a[1:]
    d = f"/verif/seeded/{bid}"
    slot = os.environ.get("SLOT", "s0")
    sr, sv, log = f"{S}/{slot}/repo", f"{S}/{slot}/verif", f"{S}/{slot}/log"
    os.makedirs(log, exist_ok=True)
    subprocess.check_call(["rsync", "-a", "--delete", "/repo/", sr + "/"] if shutil.which("rsync") and not os.path.exists(sr) else
                          ["bash", "-c", f"mkdir -p {sr} && cp -au /repo/. {sr}/ && git -C {sr} reset -q --hard $(git -C /repo rev-parse HEAD) && git -C {sr} clean -fdq"])
    subprocess.check_call(["bash", "-c", f"mkdir -p {sv} && cp -au /verif/. {sv}/"])
    if bid != "none":
        subprocess.check_call(["git", "-C", sr, "apply", f"{d}/patch.diff"])
    env = dict(os.environ, SR=sr, SV=sv, LOG=log, DEMO=d.replace("/verif", sv) if False else d, CHECKS=" ".join(checks), ONLY=only)
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER], env=env)
    subprocess.call(["git", "-C", sr, "checkout", "-q", "--", "."])
    return p.returncode


sys.exit(main())
