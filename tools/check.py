"""python3 tools/check.py ID [--tier quick|thorough] [--replay FILE] [--scale X] [--only TEST] ...

Rebuilds the harness of property ID from /repo's working tree and runs it.
Exit 0: held on everything explored.  Exit 1 and a line VIOLATION: broken."""

import json
import os
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from harnesses import HARNESSES  # noqa: E402

VERIF = build.VERIF


def main():
    args = sys.argv[1:]
    if not args or args[0].startswith("-"):
        sys.exit("usage: check.py ID [options]")
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    seed = os.environ.get("VERIF_SEED", "1")
    if "--seed" in args:
        i = args.index("--seed")
        seed = args[i + 1]
        del args[i:i + 2]
    t0 = time.time()
    h = HARNESSES[pid]
    exe = build.build([(pid, h["sources"], h["modules"], h.get("link", []), h.get("variant", ""))])[pid]
    built = time.time() - t0
    print("%s: built in %.1f s" % (pid, built), flush=True)
    evidence = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    replays = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
    os.makedirs(evidence, exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    evfile = os.path.join(evidence, pid + ".json")
    if os.path.exists(evfile) and "--replay" not in args and "--only" not in args:
        os.unlink(evfile)
    with tempfile.TemporaryDirectory() as tmp:
        known = os.path.join(tmp, "known")
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            findings = json.load(f)["findings"]
        with open(known, "w") as f:
            for k in findings:
                if k["property"] == pid:
                    f.write("%s\t%s\t%s\n" % (k["key"], os.path.join(VERIF, k["replay"]), k["what"]))
        regress = os.path.join(tmp, "regress")
        rdir = os.path.join(VERIF, "regressions", pid)
        with open(regress, "w") as f:
            if os.path.isdir(rdir):
                for n in sorted(os.listdir(rdir)):
                    f.write(os.path.join(rdir, n) + "\n")
        cmd = [exe, "--property", pid, "--tier", tier, "--seed", seed, "--evidence",
               evfile if "--only" not in args else os.path.join(tmp, "ev"), "--replaydir", replays,
               "--known", known, "--regress", regress, "--jobs", str(build.JOBS)]
        if "--budget" not in args:
            # a cap on the time, not a target: stop generating when it is reached
            cmd += ["--budget", "400" if tier == "quick" else "3300"]
        r = subprocess.run(cmd + args, cwd=tmp)
    if r.returncode < 0:
        print("the runner was ended by signal %d" % -r.returncode)
        return 2
    return r.returncode


sys.exit(main())
