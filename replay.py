#!/usr/bin/env python3
"""Repeats what a check reported: replay.py FILE (a file from /verif/replays)"""

import json
import os
import shutil
import subprocess
import sys

import check


def main():
    with open(sys.argv[1]) as f:
        doc = json.load(f)
    prop = doc["property"]
    if doc["kind"] == "memory":
        print("run the check again: VERIF_SEED=%d python3 check.py %s %s" % (doc["seed"], prop, doc["tier"]))
        print("what was run:", " ".join(doc["command"]))
        print("\n".join(doc["trace"]))
        return 0
    monitor = check.build_monitor(prop, doc.get("profile"))
    scratch = check.scratch_dir()
    cmd = [monitor, "replay", prop, "--seed", str(doc["case_seed"]), "--tier", doc["tier"], "--scratch", scratch]
    cmd += ["--repo", check.REPO_SRC]
    if doc.get("keep") is not None:
        cmd += ["--keep", ",".join(map(str, doc["keep"]))]
    try:
        return subprocess.run(cmd, preexec_fn=check.limits).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except check.NoVerdict as e:
        print("NO VERDICT:", e)
        sys.exit(2)
