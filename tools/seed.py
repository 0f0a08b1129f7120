"""Development aid: make or verify a planted bug.
  seed.py new ID PROPERTY FILE 'old' 'new' 'needs' 'breaks'   (demo.py is read from stdin)  -> /verif/seeded/ID
  seed.py verify ID...      tests pass with the patch, demo fails with it and passes without it
  seed.py catch ID...       which checks report it (all of MANIFEST, or the property's with --own)"""
import concurrent.futures as cf
import glob, json, os, shutil, subprocess, sys, tempfile

S = "/verif/seeded"
DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export JAX_ENABLE_X64=1 JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python "$here/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix="seed")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d


def new(i, prop, f, old, nw, needs, breaks):
    d = copy()
    p = f"{d}/src/smolgp/{f}"
    s = open(p).read()
    assert s.count(old) == 1, f"{s.count(old)} occurrences"
    open(p, "w").write(s.replace(old, nw))
    out = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    os.makedirs(f"{S}/{i}", exist_ok=True)
    open(f"{S}/{i}/patch.diff", "w").write(out)
    open(f"{S}/{i}/demo.sh", "w").write(DEMO)
    open(f"{S}/{i}/demo.py", "w").write(sys.stdin.read())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{S}/{i}/meta.json", "w"), indent=1)
    shutil.rmtree(d)


def env(d):
    return dict(os.environ, JAX_ENABLE_X64="1", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                PYTHONHASHSEED="0", PYTHONPATH=d + "/src")


def demo(i, d):
    return subprocess.run(["bash", f"{S}/{i}/demo.sh"], cwd=d, capture_output=True, text=True)


def verify(i):
    d = copy()
    try:
        a = demo(i, d)
        if a.returncode:
            return i, "demo fails on the unchanged tree", a.stdout[-300:] + a.stderr[-600:]
        r = subprocess.run(["git", "-C", d, "apply", f"{S}/{i}/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            return i, "patch does not apply", r.stderr
        b = demo(i, d)
        if not b.returncode:
            return i, "demo passes with the patch", b.stdout[-300:]
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "5", "tests"], cwd=d,
                           capture_output=True, text=True, env=env(d))
        return i, "ok" if t.returncode == 0 else "TESTS FAIL", (b.stdout + b.stderr)[-160:] if t.returncode == 0 else t.stdout[-300:]
    finally:
        shutil.rmtree(d)


def catch(i, own):
    d = copy()
    try:
        subprocess.run(["git", "-C", d, "apply", f"{S}/{i}/patch.diff"], check=True)
        m = json.load(open(f"{S}/{i}/meta.json"))
        ps = [m["property"]] if own else [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
        res = []
        for c in ps:
            r = subprocess.run(["python3-vt", "-m", "sa.run", c, "quick"], cwd="/verif", capture_output=True, text=True,
                               env=dict(os.environ, SA_REPO=d, SA_VERIF=d))
            if r.returncode:
                res.append(f"{c}:{r.returncode}")
            if c == m["property"]:
                line = next((x.strip()[:200] for x in r.stdout.splitlines() if x.startswith("  ") or "INCOMPLETE" in x), "")
        return i, ("CAUGHT " if m["property"] + ":1" in res else "missed ") + m["property"] + " | " + " ".join(res), line
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, a = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        new(*a)
    else:
        own = "--own" in a
        a = [x for x in a if x != "--own"] or sorted(os.path.basename(x) for x in glob.glob(S + "/*"))
        with cf.ThreadPoolExecutor(2 if cmd == "verify" else 7) as ex:
            for r in ex.map(verify if cmd == "verify" else (lambda i: catch(i, own)), a):
                print(*r, sep="\n    ", flush=True)
