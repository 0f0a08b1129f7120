"""Development aid: run checks on many mutants of /repo/src in parallel.
usage: muts.py FILE ; lines: CHECKS | file below src/smolgp | regex | replacement   (checks separated by blanks; # comments)"""
import concurrent.futures as cf
import os, re, shutil, subprocess, sys, tempfile


def one(line):
    checks, f, rx, rp = [x.strip() for x in line.split(" | ")]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/src", d + "/src")
        p = f"{d}/src/smolgp/{f}"
        s = open(p).read()
        n, k = re.subn(rx, rp, s, count=1)
        if k != 1:
            return line, "NO MATCH", ""
        open(p, "w").write(n)
        res, det = [], ""
        for c in checks.split():
            r = subprocess.run(["python3-vt", "-m", "sa.run", c, "quick"], cwd="/verif", capture_output=True, text=True,
                               env=dict(os.environ, SA_REPO=d, SA_VERIF=d))
            out = r.stdout + r.stderr
            res.append(f"{c}:{r.returncode}")
            det = det or next((x.strip() for x in out.splitlines() if x.startswith("  ") or "INCOMPLETE" in x or "Error" in x), "")
        return line, " ".join(res), det
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    lines = [x.rstrip("\n") for x in open(sys.argv[1]) if x.strip() and not x.startswith("#")]
    with cf.ThreadPoolExecutor(8) as ex:
        for line, r, det in ex.map(one, lines):
            print(f"{r:28s} {line[:150]}\n        {det[:230]}", flush=True)
