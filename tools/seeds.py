#!/usr/bin/env python3
"""Writes planted bugs from (file, old, new) edits and validates them in a scratch copy of /repo.

   seeds.py make            regenerate /verif/seeded from seeds_src.py
   seeds.py try [ID...]     in a scratch copy: builds, tests pass, demo clean=0 patched!=0, and what the check says
"""
import difflib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SEEDED = ROOT + "/seeded"
SCRATCH = "/tmp/w/seedrepo"
sys.path.insert(0, HERE)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


DEMO = """#!/bin/bash
# run in the repository's root after the build; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
%s
g++ -std=c++17 -O1 -g -pthread -w -DBOOST_THREAD_VERSION=4 -DBOOST_STACKTRACE_USE_NOOP %s -I"$tmp" -I"$here/inc" -Iinclude -Isrc "$here/demo.cpp" %s -o "$tmp/demo" %s || exit 2
timeout 120 "$tmp/demo"
"""
PROTO = """protoc -Isrc --cpp_out="$tmp" %s || exit 2"""


def make():
    from seeds_src import SEEDS
    for s in SEEDS:
        d = SEEDED + "/" + s["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = ""
        files = {}
        for f, old, new in s["edits"]:
            t = files.setdefault(f, [open("/repo/" + f).read()] * 2)
            assert t[1].count(old) == 1, (s["id"], f, t[1].count(old), old)
            files[f] = [t[0], t[1].replace(old, new)]
        for f, (a, b) in files.items():
            diff += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
        open(d + "/patch.diff", "w").write(diff)
        protos = s.get("protos", "")
        cc = " ".join('"$tmp"/%s.pb.cc' % p[4:-6] for p in protos.split())
        open(d + "/demo.sh", "w").write(DEMO % (PROTO % protos if protos else "", s.get("flags", ""), s.get("src", "") + " " + cc, s.get("libs", "-lglog") + (" -lprotobuf" if protos else "")))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(s["demo"])
        inc = dict(s.get("inc", {}))
        if s.get("auto"):  # every stand-in header the demonstration reaches
            r = sh("g++ -std=c++17 -DBOOST_THREAD_VERSION=4 -DBOOST_STACKTRACE_USE_NOOP %s -M -I%s/shim -Iinclude -Isrc %s/demo.cpp %s" % (s.get("flags", ""), ROOT, d, s.get("src", "")), cwd="/repo")
            assert r.returncode == 0, r.stdout
            for w in r.stdout.replace("\\\n", " ").split():
                if w.startswith(ROOT + "/shim/"):
                    inc[w[len(ROOT) + 6:]] = "@" + w[len(ROOT) + 1:]
        for n, c in inc.items():
            os.makedirs(os.path.dirname(d + "/inc/" + n), exist_ok=True)
            if c.startswith("@"):
                c = open(ROOT + "/" + c[1:]).read()
            open(d + "/inc/" + n, "w").write(c)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(len(SEEDS), "seeds written")


def build_test():
    return sh("rsync -a --delete --exclude=_build %s/ /tmp/w/none 2>/dev/null; true" % SCRATCH)


def attempt(i, check=True):
    d = SEEDED + "/" + i
    meta = json.load(open(d + "/meta.json"))
    out = []
    a = sh("git checkout -q -- . && bash %s/demo.sh" % d, cwd=SCRATCH)
    out.append("clean demo %d" % a.returncode)
    r = sh("git apply %s/patch.diff" % d, cwd=SCRATCH)
    if r.returncode:
        return i + ": does not apply " + r.stdout
    b = sh("bash %s/demo.sh" % d, cwd=SCRATCH)
    out.append("patched demo %d" % b.returncode)
    if a.returncode != 0 or b.returncode in (0, 2):
        out.append(a.stdout[-800:] + b.stdout[-800:])
    if check:
        e = dict(os.environ, VERIF_REPO=SCRATCH, VERIF_SEED="1", VERIF_TIER="quick")
        c = subprocess.run(["python3", ROOT + "/run.py", meta["property"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e)
        viol = [x for x in c.stdout.split("\n") if "failure:" in x or x.startswith("ERROR")]
        out.append("check %s %d %s" % (meta["property"], c.returncode, viol[0][:160] if viol else ""))
    sh("git checkout -q -- .", cwd=SCRATCH)
    return i + ": " + "; ".join(out)


def main():
    if sys.argv[1] == "make":
        make()
        return
    if not os.path.exists(SCRATCH):
        os.makedirs("/tmp/w", exist_ok=True)
        sh("cp -a /repo " + SCRATCH)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SCRATCH)
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    for i in ids:
        print(attempt(i), flush=True)


if __name__ == "__main__":
    main()
