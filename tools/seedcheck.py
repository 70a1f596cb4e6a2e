"""Runs the checks against planted bugs, in copies. python3 seedcheck.py [-t] [ID|PROP ...]; prints caught/missed."""
import os, sys, subprocess, shutil, json, tempfile, glob, concurrent.futures as cf
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
tier = "thorough" if "-t" in sys.argv else "quick"
full = "-f" in sys.argv
sel = [a for a in sys.argv[1:] if not a.startswith("-")]
def one(id):
    sd = "/verif/seeded/" + id
    meta = json.load(open(sd + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="sc")
    try:
        d = tmp + "/repo"; shutil.copytree("/repo", d, symlinks=True)
        r = subprocess.run(["git", "apply", sd + "/patch.diff"], cwd=d, capture_output=True, text=True)
        if r.returncode: return id, "NOAPPLY " + r.stderr
        v = tmp + "/verif"; os.mkdir(v)
        shutil.copytree("/verif/harness", v + "/harness"); shutil.copy("/verif/known_findings.json", v); shutil.copy("/verif/properties.jsonl", v)
        if os.path.exists("/verif/MANIFEST.json"): shutil.copy("/verif/MANIFEST.json", v)
        e = dict(ENV, VERIF_REPO=d, VERIF_DIR=v)
        try: r = subprocess.run(["/verif/bin/engine", "check", "-prop", meta["property"], "-tier", tier, "-workers", "3"], env=e, capture_output=True, text=True, timeout=1800)
        except subprocess.TimeoutExpired: return id, "TIMEOUT"
        vio = [l for l in r.stdout.splitlines() if "VIOLATION property=" + meta["property"] in l]
        if r.returncode == 1 and vio: return id, "caught " + meta["property"] + " " + " ".join(l for l in r.stdout.splitlines() if "VIOLATION" in l)[:160]
        return id, "MISSED %s rc=%d %s" % (meta["property"], r.returncode, (r.stdout + r.stderr)[-600:])
    finally:
        shutil.rmtree(tmp)
ids = sorted(os.path.basename(p) for p in glob.glob("/verif/seeded/*") if os.path.exists(p + "/patch.diff"))
if sel: ids = [i for i in ids if i in sel or json.load(open("/verif/seeded/%s/meta.json" % i))["property"] in sel]
with cf.ThreadPoolExecutor(3) as ex:
    for id, r in ex.map(one, ids): print(id, r, flush=True)
