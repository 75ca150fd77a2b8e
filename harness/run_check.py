#!/usr/bin/env python3
"""Builds the check of one property against /repo/include, runs it, writes its evidence file.

  run_check.py C01                  the check (VERIF_SEED, VERIF_TIER from the environment)
  run_check.py C01 --thorough       same, thorough tier
  run_check.py C01 --replay FILE    runs a recorded case again
  run_check.py C01 --only NAME      only the case families whose name contains NAME
  run_check.py C01 --scale X        multiplies the numbers of cases
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.realpath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "g++"
BASE = ["-std=c++17", "-g1", "-O1", "-Wall", "-Wno-unused", "-pthread", "-fno-omit-frame-pointer"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
TSAN = ["-fsanitize=thread"]
PLAIN = ["-D_GLIBCXX_ASSERTIONS"]

# binaries of each property: (name, source, flags, libraries)
SPECIAL = {
    "C11": [("main", "c11.cpp", ASAN, []),
            ("sessions", "c11s.cpp", ASAN + ["-DVARIANT_BOOST"], [])],
    "C18": [("loop", "c18.cpp", ASAN + ["-DVARIANT_LOOP"], []),
            ("boost", "c18.cpp", ASAN + ["-DVARIANT_BOOST"], []),
            ("standalone", "c18.cpp", ASAN + ["-DVARIANT_STANDALONE"], [])],
    "C19": [("loop-tsan", "c19.cpp", TSAN + ["-DVARIANT_LOOP"], []),
            ("boost-tsan", "c19.cpp", TSAN + ["-DVARIANT_BOOST"], []),
            ("loop-asan", "c19.cpp", ASAN + ["-DVARIANT_LOOP"], []),
            ("boost-asan", "c19.cpp", ASAN + ["-DVARIANT_BOOST"], []),
            ("standalone-tsan", "c19.cpp", TSAN + ["-DVARIANT_STANDALONE"], []),
            ("standalone-asan", "c19.cpp", ASAN + ["-DVARIANT_STANDALONE"], [])],
    "C20": [("boost", "c20.cpp", ASAN + ["-DVARIANT_BOOST"], []),
            ("standalone", "c20.cpp", ASAN + ["-DVARIANT_STANDALONE"], [])],
    "C21": [("boost", "c21.cpp", ASAN + ["-DVARIANT_BOOST"], []),
            ("standalone", "c21.cpp", ASAN + ["-DVARIANT_STANDALONE"], [])],
    # the vptr check of UBSan needs descriptors of its own, which some cases take away
    "C22": [("boost", "c22.cpp", ASAN + ["-fno-sanitize=vptr", "-DVARIANT_BOOST"], []),
            ("standalone", "c22.cpp", ASAN + ["-fno-sanitize=vptr", "-DVARIANT_STANDALONE"], [])],
    "C23": [("asan", "c23.cpp", ASAN, []),
            ("tsan", "c23.cpp", TSAN, [])],
    "C24": [("boost", "c24.cpp", ASAN + ["-DVARIANT_BOOST"], []),
            ("standalone", "c24.cpp", ASAN + ["-DVARIANT_STANDALONE"], [])],
}


def binaries(prop):
    return SPECIAL.get(prop, [("main", prop.lower() + ".cpp", ASAN, [])])


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(prop, work):
    """one object per translation unit, in parallel; returns {variant: executable}"""
    jobs, links, engines = [], [], {}
    for name, src, flags, libs in binaries(prop):
        kind = "tsan" if "-fsanitize=thread" in flags else "plain"
        if kind not in engines:
            obj = os.path.join(work, "vf_main.%s.o" % kind)
            eng = BASE + (TSAN if kind == "tsan" else [])
            jobs.append([CXX] + eng + ["-c", os.path.join(HERE, "vf_main.cpp"), "-o", obj])
            engines[kind] = obj
        obj = os.path.join(work, name + ".o")
        jobs.append([CXX] + BASE + flags + ["-I" + os.path.join(REPO, "include"), "-I" + HERE, "-c",
                                            os.path.join(VERIF, "checks", src), "-o", obj])
        exe = os.path.join(work, name)
        links.append((name, exe, [CXX] + BASE + flags + [obj, engines[kind], "-o", exe] + libs))
    with ThreadPoolExecutor(8) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode != 0:
                print("cannot build: " + " ".join(cmd) + "\n" + r.stdout[-6000:])
                sys.exit(2)
        for (name, exe, cmd), r in zip(links, ex.map(lambda l: sh(l[2]), links)):
            if r.returncode != 0:
                print("cannot link: " + " ".join(cmd) + "\n" + r.stdout[-6000:])
                sys.exit(2)
    return {name: exe for name, exe, _ in links}


def environment(prop, work):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:hard_rss_limit_mb=3000:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=0:report_signal_unsafe=0"
    env["TERM"] = "xterm"
    env["LC_ALL"] = "C"
    env["TMPDIR"] = work
    return env


def known_findings(prop):
    """{family: (what the failing case says, text)}: recorded findings"""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    for line in open(path):
        if line.startswith("finding: property=%s family=" % prop):
            fam, rest = line.split("family=", 1)[1].split(" ", 1)
            says, text = rest.split('says="', 1)[1].split('"', 1)
            out[fam] = (says, text.strip())
    return out


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale, replay, only, keep = "1", None, None, None
    while args:
        a = args.pop(0)
        if a == "--thorough":
            tier = "thorough"
        elif a == "--replay":
            replay = os.path.realpath(args.pop(0))
        elif a == "--only":
            only = args.pop(0)
        elif a == "--scale":
            scale = args.pop(0)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    code = 2
    try:
        code = run(prop, tier, seed, scale, replay, only, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(prop, tier, seed, scale, replay, only, work, t0):
    exes = build(prop, work)
    built = time.time() - t0
    env = environment(prop, work)
    if replay:
        variant = next((l.split()[1] for l in open(replay) if l.startswith("variant ")), list(exes)[0])
        return subprocess.run([exes[variant], "--replay", replay, "--dir", work], env=env, cwd=work).returncode

    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "inconclusive": 0, "families": {}, "labels": {},
           "build_s": round(built, 1)}
    violations, unconfirmed, failure = 0, 0, None
    findings = known_findings(prop)
    seen_findings = set()
    for variant, exe in exes.items():
        res = os.path.join(work, variant + ".json")
        rep = os.path.join(VERIF, "replays", "%s-%s-seed%d.txt" % (prop, variant, seed))
        d = os.path.join(work, variant + ".d")
        os.makedirs(d)
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--scale", scale, "--out", res, "--dir", d, "--replay-out", rep,
               "--budget", "420" if tier == "quick" else "7200"]
        for f in findings:
            cmd += ["--known", f + ":" + findings[f][0]]
        if only:
            cmd += ["--only", only]
        r = subprocess.run(cmd, env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if not os.path.exists(res) or r.returncode not in (0, 1):
            print("the check could not run (%s, status %d)\n%s" % (variant, r.returncode, r.stdout[-3000:]))
            return 2
        j = json.loads(open(res, encoding="utf-8", errors="replace").read())
        pre = "" if len(exes) == 1 else variant + "/"
        cov["rule"] = cov["rule"] if j["rule"] in cov["rule"] else (cov["rule"] + " " + j["rule"]).strip()
        cov["evaluations"] += j["evaluations"]
        cov["distinct_nontrivial"] += j["distinct_nontrivial"]
        cov["inconclusive"] += j["inconclusive"]
        cov["samples"] += j["samples"][:4]
        for k, v in j["families"].items():
            cov["families"][pre + k] = v
        for k, v in j["labels"].items():
            cov["labels"][k] = cov["labels"].get(k, 0) + v
        unconfirmed += j["unconfirmed"]
        if j["unconfirmed"]:
            cov["unconfirmed_text"] = cov.get("unconfirmed_text", "") + j["unconfirmed_text"]
        for f in j.get("known", []):
            if f not in seen_findings and f in findings:
                seen_findings.add(f)
        if "failure" in j:
            violations += 1
            failure = j["failure"]
            text = open(rep).read()
            open(rep, "w").write("variant %s\n" % variant + text)
            print("%s: %s\n%s" % (failure["family"], failure["message"], failure["case"][:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, rep))
            break
    for f in sorted(seen_findings):
        print("KNOWN-FINDING: property=%s %s" % (prop, findings[f][1]))
    cov["unconfirmed"] = unconfirmed
    cov["known_findings_seen"] = sorted(seen_findings)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": violations}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %d inconclusive, %d unconfirmed, %.1f s (build %.1f)" %
          (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], cov["inconclusive"], unconfirmed, time.time() - t0, built))
    return 1 if violations else 0


if __name__ == "__main__":
    main()
