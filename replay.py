#!/usr/bin/env python3
"""replay.py evidence/replay/PROP.json: build the recorded configuration from /repo and run the recorded case alone."""
import json, os, shutil, sys, tempfile
import check

v = json.load(open(sys.argv[1]))
spec = json.load(open(os.path.join(check.ROOT, "checks.json")))[v["property"]]
base = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(check.ROOT, "build") if os.path.isdir(os.path.join(check.ROOT, "build")) else None)
try:
    exe = check.build(v["property"], spec, [v["config"]], base)[v["config"]]
    scratch = os.path.join(base, "scratch")
    os.mkdir(scratch)
    cmd = [exe, "--tier", v["tier"], "--cfg", v["config"], "--scratch", scratch]
    if v["reproduced_by"] == "case alone":
        cmd += ["--replay", v["case"], "--hang", "150"]
    else:
        cmd += ["--workers", "8", "--out", os.path.join(base, "out.json")]
    rc, text = check.run(cmd, 600, os.path.join(base, "log"))
    print(text[-8000:])
    print("exit", rc)
finally:
    shutil.rmtree(base, ignore_errors=True)
sys.exit(0 if rc == 0 else 1)
