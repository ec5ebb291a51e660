"""mkseed.py ID... : builds seeded/<id>/ from tools/seeds.py and validates it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python "$here/demo.py"\n'
PRE = "import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def build(repo):
    # like build.sh: the extension in place
    r = sh(PY, "setup.py", "-q", "build_ext", "--inplace", cwd=repo)
    return r.returncode == 0, r.stderr[-600:]


def tests(repo):
    out = tempfile.mktemp(suffix=".xml")
    sh(PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "--continue-on-collection-errors",
       "-o", "junit_family=xunit2", "--junitxml=" + out, cwd=repo, env=dict(os.environ, PYTHONPATH="/opt/vp:" + repo + "/src"))
    ok = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        if not list(c):
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    os.unlink(out)
    return ok


def main():
    import seeds
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(seeds.S)
    for i in ids:
        s = seeds.S[i]
        d = tempfile.mkdtemp(prefix="t2cseed")
        try:
            r = os.path.join(d, "repo")
            subprocess.run(["cp", "-a", "/repo", r], check=True)
            out = os.path.join(H, "seeded", i)
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "demo.py"), "w").write(PRE + s["demo"].lstrip("\n"))
            open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            a = sh("bash", out + "/demo.sh", cwd=r)
            for f, old, new in s["edits"]:
                p = os.path.join(r, "src/tools21cm", f)
                t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git", "-C", r, "diff").stdout
            # the changed lines must be the original repository's
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            if any(f.endswith(".pyx") for f, _, _ in s["edits"]):
                print(i, "ext", build(r))
            bad = stable - tests(r)
            b = sh("bash", out + "/demo.sh", cwd=r)
            print(i, s["property"], "demo clean", a.returncode, "patched", b.returncode, "| stable broken", sorted(bad),
                  "" if a.returncode == 0 else a.stderr[-400:], (b.stdout + b.stderr).strip()[-160:].replace("\n", " / "))
            sys.stdout.flush()
            if "--check" in sys.argv:
                v = os.path.join(d, "verif")
                shutil.copytree(H, v, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
                for p in [s["property"]]:
                    o = sh(PY, "check.py", p, cwd=v, env=dict(os.environ, T2C_REPO=r))
                    L = [x for x in o.stdout.splitlines() if x.strip()]
                    print("   check", p, "exit", o.returncode, "|", " || ".join(x[:220] for x in L[-2:]), o.stderr[-200:])
                    sys.stdout.flush()
        finally:
            shutil.rmtree(d)
main()
