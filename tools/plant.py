#!/usr/bin/env python3
"""Plant a seeded bug: plant.py <id>   (specification read from /verif/tools/bugs.py)

Makes a scratch copy of /repo, applies the textual change, checks that it builds and passes the
stable tests, that the demonstration fails with it and passes without it, and writes
/verif/seeded/<id>/{patch.diff,demo.sh,demo.cc,meta.json}.  With --checks also runs the check of the
property against the changed copy."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from bugs import BUGS

DEMO = """#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
g++ -std=gnu++17 -w -O1 %s -I include -I "$d" "$d/demo.cc" -o "$t/demo" %s || { rm -rf "$t"; exit 4; }
( cd "$t" && timeout 120 ./demo )
rc=$?
rm -rf "$t"
exit $rc
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo_rc(bdir, repo):
    return sh("bash %s/demo.sh" % bdir, cwd=repo)


def main(ids, checks):
    for i in ids:
        b = BUGS[i]
        out = os.path.join(V, "seeded", i)
        os.makedirs(out, exist_ok=True)
        w = tempfile.mkdtemp(prefix="plant-")
        try:
            sh("git -C /repo worktree prune; git clone -q /repo %s/r" % w)
            r = w + "/r"
            for f, old, new in b["edits"]:
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(i, "EDIT-NOT-UNIQUE", f, s.count(old)); break
                open(p, "w").write(s.replace(old, new))
            else:
                d = sh("git diff", cwd=r).stdout
                open(out + "/patch.diff", "w").write(d)
                open(out + "/demo.cc", "w").write(b["demo"])
                open(out + "/demo.sh", "w").write(DEMO % (b.get("flags", ""), b.get("libs", "")))
                for src in b.get("files", []):
                    dst = os.path.join(out, os.path.basename(src))
                    if os.path.isdir(os.path.join(V, src)):
                        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(os.path.join(V, src), dst)
                    else:
                        shutil.copy(os.path.join(V, src), dst)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(out + "/meta.json", "w"), indent=1)
                good = demo_rc(out, "/repo"); bad = demo_rc(out, r)
                # tests
                tests = "test_duovector test_case_params_parser test_mpogen_fsm test_mpogen_coef_op_alg"
                t = sh("cmake -S . -B b -G Ninja -DCMAKE_BUILD_TYPE=Release -DQLMPS_BUILD_UNITTEST=ON -DQLTEN_HEADER_PATH= -Dhptt_INCLUDE_DIR= -Dhptt_LIBRARY= >/dev/null 2>&1 && ninja -C b %s >/dev/null 2>&1 && ctest --test-dir b -j8 -R '^(%s)$' | tail -4" % (tests, tests.replace(" ", "|")), cwd=r) if not b.get("untested") else None
                ok_t = t is None or "100% tests passed" in t.stdout
                st = "OK" if good.returncode == 0 and bad.returncode not in (0, 4) and ok_t else "BAD"
                print(i, st, "good=%d bad=%d tests=%s" % (good.returncode, bad.returncode, "n/a" if t is None else ok_t), flush=True)
                if st == "BAD":
                    print(good.stdout[-800:]); print(bad.stdout[-800:]); print(t.stdout[-600:] if t else "")
                if checks:
                    c = sh("python3 %s/run.py check %s quick" % (V, b["property"]), env=dict(os.environ, VERIF_REPO=r))
                    print("   check rc=%d  %s" % (c.returncode, [l for l in c.stdout.split("\n") if "key=" in l][:2]), flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    chk = "--checks" in a
    a = [x for x in a if not x.startswith("--")]
    main(a or list(BUGS), chk)
