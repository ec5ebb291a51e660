"""try.py PATCH|REV:path PROP... : runs checks against a scratch copy of /repo with a change applied."""
import os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    what, props = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    opts = [a for a in sys.argv[2:] if a.startswith("--")]
    d = tempfile.mkdtemp(prefix="t2ctry")
    try:
        r = os.path.join(d, "repo")
        subprocess.run(["cp", "-a", os.environ.get("TRY_BASE", "/repo"), r], check=True)
        if ":" in what and not os.path.exists(what):
            rev, path = what.split(":", 1)
            subprocess.run(["git", "-C", r, "checkout", "-q", rev, "--", path], check=True)
        else:
            subprocess.run(["git", "-C", r, "apply", os.path.abspath(what)], check=True)
        v = os.path.join(d, "verif")
        shutil.copytree(H, v, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        for p in props:
            o = subprocess.run(["/opt/venv/bin/python", "check.py", p] + opts, cwd=v, env=dict(os.environ, T2C_REPO=r),
                               capture_output=True, text=True)
            L = [x for x in o.stdout.splitlines() if x.strip()]
            print(what, p, "exit", o.returncode, "|", " || ".join(x[:260] for x in L[-3:]))
    finally:
        shutil.rmtree(d)
main()
