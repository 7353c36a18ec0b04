#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from a Python description: newbug(id, prop, needs, breaks, subs, demo_cpp)."""
import json, os, subprocess
DEMO = '''#!/bin/bash
# exit 0: the property holds; anything else: it does not
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'find "$d" -delete' EXIT
g++ -std=c++14 -O0 -w @FLAGS@-I/repo/app/tenncor/include -I/repo/app/rocnnet/include -I/repo/_build/app/tenncor "$here/demo.cpp" \\
	@LIBS@/repo/app/bin/lib/libtenncor.a /repo/app/bin/lib/libproto_grpc.a -lprotobuf -lpthread -o "$d/demo" || exit 3
cd "$d" && timeout 120 ./demo
'''


def newbug(bid, prop, needs, breaks, subs, demo, libs="", flags="", root="/repo/app/tenncor/"):
    d = f"/verif/seeded/{bid}"
    os.makedirs(d, exist_ok=True)
    work = "/tmp/seed/edit"
    if not os.path.exists(work):
        subprocess.check_call(["git", "clone", "-q", "/repo", work])
    subprocess.check_call(["git", "-C", work, "fetch", "-q", "origin"])
    subprocess.check_call(["git", "-C", work, "reset", "-q", "--hard", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
    for f, old, new in subs:
        p = (root + f).replace("/repo", work)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", work, "diff"], text=True))
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO.replace("@LIBS@", libs).replace("@FLAGS@", flags))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    p = subprocess.run(["bash", d + "/demo.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(bid, "demo on the unchanged tree:", p.returncode, p.stdout[-300:] if p.returncode else "")
