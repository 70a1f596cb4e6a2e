"""Creates and validates planted bugs. Usage: python3 mkseed.py SPEC.py [ID...]
SPEC.py calls seed(id, prop, edits=[(path, old, new)...], demo=..., files={name: text}, needs=..., breaks=...).
A seed is kept only when: it builds, the tests pass, the demo passes without and fails with the patch."""
import os, sys, subprocess, shutil, json, tempfile, textwrap
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
only = set(sys.argv[2:])
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=ENV, capture_output=True, text=True, **kw)
def tests(d):
    r = sh("go test -json -vet=off -count=1 ./...", d)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    return [t for t in stable if t not in ok]
def seed(id, prop, edits, demo, needs, breaks, files={}):
    if only and id not in only: return
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        d = tmp + "/repo"
        shutil.copytree("/repo", d, symlinks=True)
        sh("git checkout -- . && go build -o oct .", d)
        out = tmp + "/s"; os.mkdir(out)
        text = "#!/bin/bash\n# run with cwd = the repository, after the build\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\noct=$PWD/oct\nd=$(mktemp -d)\ntrap 'rm -rf \"$d\"' EXIT\ncd \"$d\" || exit 2\n" + textwrap.dedent(demo).lstrip("\n")
        open(out + "/demo.sh", "w").write(text); os.chmod(out + "/demo.sh", 0o755)
        for n, t in files.items(): open(out + "/" + n, "w").write(textwrap.dedent(t).lstrip("\n"))
        r0 = sh(["bash", out + "/demo.sh"], d, timeout=300)
        if r0.returncode != 0: print(id, "BAD: demo fails on the clean tree", r0.returncode, r0.stdout[-1500:], r0.stderr[-1500:]); return
        for p, a, b in edits:
            s = open(d + "/" + p).read()
            if s.count(a) != 1: print(id, "BAD: edit matches", s.count(a), "times:", p, repr(a)); return
            open(d + "/" + p, "w").write(s.replace(a, b))
        r = sh("go build ./... && go build -o oct .", d)
        if r.returncode: print(id, "BAD: build", r.stderr[-800:]); return
        f = tests(d)
        if f: print(id, "BAD: tests fail", f); return
        r1 = sh(["bash", out + "/demo.sh"], d, timeout=300)
        if r1.returncode == 0: print(id, "BAD: demo passes with the patch", r1.stdout[-1500:]); return
        p = sh("git diff", d).stdout
        open(out + "/patch.diff", "w").write(p)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        dst = "/verif/seeded/" + id
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
        print(id, "ok", "| demo says:", (r1.stdout + r1.stderr).strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(tmp)
exec(open(sys.argv[1]).read())
