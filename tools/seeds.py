#!/usr/bin/env python3
"""Planted bugs: makes them from a spec, confirms them and runs the checks against them.

  seeds.py make SPEC.py [ID...]      writes /verif/seeded/ID from a spec (a list of calls of S(...))
  seeds.py confirm [ID...]           in scratch copies: builds, stable tests, demo.sh with and without the patch
  seeds.py detect [-p C01,C02] [ID...]   runs the checks (default: that of the bug's property) against a patched copy
  seeds.py table FILE...             writes the table of planted bugs into DESIGN.md, from the output of detect
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"
SCRATCH = "/tmp/seed-scratch"
BASE = "82ef083"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def copy(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    sh(["git", "clone", "-q", REPO, d])
    return d


DEMO = """#!/bin/bash
# exit 0: the property holds; other: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 -g %s -I"$repo/include" "$here/demo.cpp" -o "$work/demo" -pthread || exit 3
cd "$work" && %s ./demo
"""


def make(spec, ids):
    seeds = []

    def S(id, prop, edits, needs, breaks, demo, flags="", run="timeout 60", sh=None):
        seeds.append((id, prop, edits, needs, breaks, demo, flags, run, sh))
    exec(compile(open(spec).read(), spec, "exec"), {"S": S})
    d = copy("make")
    for id, prop, edits, needs, breaks, demo, flags, run, script in seeds:
        if ids and id not in ids:
            continue
        sh("git checkout -q -- .", cwd=d)
        ok = True
        for f, old, new in edits:
            p = os.path.join(d, "include/cli", f)
            t = open(p).read()
            if t.count(old) != 1:
                print("%s: %d times in %s: %s" % (id, t.count(old), f, old))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        out = os.path.join(SEEDED, id)
        os.makedirs(out, exist_ok=True)
        patch = sh("git diff", cwd=d).stdout
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.cpp"), "w").write(demo.lstrip())
        open(os.path.join(out, "demo.sh"), "w").write(script or DEMO % (flags, run))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        # lines removed must be lines of the original repository
        for f in set(re.findall(r"^\+\+\+ b/(.*)$", patch, re.M)):
            orig = sh("git show %s:%s" % (BASE, f), cwd=d).stdout.splitlines()
            cur = None
            hit = 0
            for l in patch.splitlines():
                if l.startswith("+++ b/"):
                    cur = l[6:]
                elif l.startswith("-") and not l.startswith("---") and cur == f and l[1:] in orig:
                    hit += 1
            print("%s: %s removes %d original lines" % (id, f, hit))


TESTS = r"""
set -e
S=%(d)s; B=%(d)s/_b
export CC=/usr/bin/gcc CXX=/usr/bin/g++
(cmake -S $S -B $B/boost -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCLI_BuildExamples=ON -DCLI_BuildTests=ON -DCLI_UseBoostAsio=ON
%(all)s
ninja -C $B/boost %(target)s) > $S/_build.log 2>&1 || { echo BUILD-FAILED; tail -30 $S/_build.log; exit 1; }
cd $B; rm -rf w; mkdir w
python3 - <<'P'
import json
b = json.load(open('/opt/vp/BASELINE.json'))
ids = b.get('stable') or b.get('tests') or b
print(len(ids))
open('ids.txt','w').write('\n'.join(x if isinstance(x,str) else x.get('id') for x in (ids if isinstance(ids,list) else ids.keys()))+'\n')
P
while IFS= read -r id; do
  rm -rf w; mkdir w
  (cd w && timeout -k 5 60 $B/boost/test/test_suite --run_test="$id" --log_level=test_suite --color_output=no) </dev/null >log 2>&1 || echo "TEST-FAILED $id"
done < ids.txt
rm -rf w
"""
ALL = """cmake -S $S -B $B/standalone -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCLI_BuildExamples=ON -DCLI_UseStandaloneAsio=ON; ninja -C $B/standalone
cmake -S $S -B $B/loop -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCLI_BuildExamples=ON; ninja -C $B/loop"""


def confirm_one(id, full=False):
    d = copy("c-" + id)
    s = os.path.join(SEEDED, id)
    out = []
    # the demo must not depend on where it lies
    demo = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(s):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(s, f), demo)
    r = sh(["bash", os.path.join(demo, "demo.sh")], cwd=d, timeout=300)
    if r.returncode != 0:
        out.append("DEMO FAILS WITHOUT THE PATCH (%d): %s" % (r.returncode, r.stdout[-300:]))
    r = sh(["git", "apply", os.path.join(s, "patch.diff")], cwd=d)
    if r.returncode != 0:
        out.append("PATCH: " + r.stdout)
    r = sh(["bash", "-c", TESTS % {"d": d, "all": ALL if full else "", "target": "" if full else "test_suite"}])
    if r.returncode != 0 or "FAILED" in r.stdout:
        out.append(r.stdout[-600:])
    r = sh(["bash", os.path.join(demo, "demo.sh")], cwd=d, timeout=300)
    if r.returncode == 0:
        out.append("DEMO PASSES WITH THE PATCH: " + r.stdout[-300:])
    elif r.returncode == 3:
        out.append("DEMO DOES NOT COMPILE: " + r.stdout[-300:])
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(demo, ignore_errors=True)
    return "%s: %s" % (id, "ok" if not out else "\n   ".join(out))


def confirm(ids):
    full = "--full" in ids
    ids = [i for i in ids if i != "--full"] or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(lambda i: confirm_one(i, full), ids):
            print(r, flush=True)


def detect(args):
    props = None
    if args and args[0] == "-p":
        props = args[1].split(",")
        args = args[2:]
    ids = args or sorted(os.listdir(SEEDED))
    d = copy("detect-%d" % os.getpid())
    for id in ids:
        s = os.path.join(SEEDED, id)
        sh("git checkout -q -- .", cwd=d)
        r = sh(["git", "apply", os.path.join(s, "patch.diff")], cwd=d)
        if r.returncode != 0:
            print(id, "does not apply", r.stdout)
            continue
        meta = json.load(open(os.path.join(s, "meta.json")))
        for p in props or [meta["property"]]:
            env = dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            r = sh(["python3", os.path.join(VERIF, "harness/run_check.py"), p], env=env)
            says = [l for l in r.stdout.splitlines() if l.strip()]
            print("%-28s %s exit %d %s" % (id, p, r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout
                                           else "MISSED"), flush=True)
            for l in says[-6:]:
                print("      " + l[:300], flush=True)
    shutil.rmtree(d, ignore_errors=True)


def table(files):
    got = {}
    for f in files:
        for m in re.finditer(r"^(\S+) +(C\d\d) exit \d+ (CAUGHT|MISSED)", open(f).read(), re.M):
            got.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    rows = ["| planted bug | property | what it breaks | reported by |", "|---|---|---|---|"]
    for id in sorted(os.listdir(SEEDED)):
        m = json.load(open(os.path.join(SEEDED, id, "meta.json")))
        by = [p for p, x in sorted(got.get(id, {}).items()) if x == "CAUGHT"]
        rows.append("| %s | %s | %s | %s |" % (id, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " "),
                                             ", ".join(by) or ("nothing" if id in got else "not run")))
    p = os.path.join(VERIF, "DESIGN.md")
    t = open(p).read()
    head = t[:t.index("<!-- table -->")]
    open(p, "w").write(head + "<!-- table -->\n\n" + "\n".join(rows) + "\n")


cmd, rest = sys.argv[1], sys.argv[2:]
if cmd == "make":
    make(rest[0], rest[1:])
elif cmd == "confirm":
    confirm(rest)
elif cmd == "detect":
    detect(rest)
elif cmd == "table":
    table(rest)
