#!/usr/bin/env python3
"""Builds and runs the check of one property from /repo's working tree.

    run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--facet SUBSTR] [--factor F] [--build-only]

exit 0: the property held on everything explored; 1: violated (VIOLATION line printed); 2: the check could not run.
"""
import argparse
import fcntl
import glob
import hashlib
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, GROUPS  # noqa: E402

BUILD = os.path.join(HERE, "build" if REPO == "/repo" else "build-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])

SAN = ("-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,shift,bounds,return,unreachable,bool,enum,"
       "float-cast-overflow,null,pointer-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer")
BASE = "-std=c++17 -O1 -g1 -pthread -w -D_GLIBCXX_ASSERTIONS -DBOOST_THREAD_VERSION=4 -DBOOST_STACKTRACE_USE_NOOP -fno-sanitize=vptr"

ENGINE = ("-std=c++17 -O1 -g0 -pthread -w -fsanitize=address -fno-omit-frame-pointer -ffunction-sections -fdata-sections -D_GLIBCXX_ASSERTIONS "
          "-DBOOST_THREAD_VERSION=4 -DBOOST_STACKTRACE_USE_NOOP -DVERIF_DIAGNOSTICS")
ENGINE_LIBS = ("-lglog -lgrpc++ -lgrpc -lgpr -lprotobuf -ltbb -lboost_container -lboost_filesystem -lboost_thread -lnuma -latomic -ldl")


def repo_sources(check):
    src = []
    for g in check.get("groups", []):
        src += GROUPS[g]
    src += check.get("repo", [])
    if check.get("engine"):
        src += engine_sources(check)
    seen, out = set(), []
    for s in src:
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out


def new_sources():
    """Source files that did not exist at the pinned commit: a refactoring may have moved code there."""
    with open(os.path.join(HERE, "known_sources.txt")) as f:
        known = set(x.strip() for x in f)
    found = []
    for d, _, names in os.walk(os.path.join(REPO, "src/jogasaki")):
        for n in names:
            rel = os.path.relpath(os.path.join(d, n), REPO)
            if n.endswith(".cpp") and rel not in known:
                found.append(rel)
    return sorted(found)


# parts of the repository no stand-in exists for (Arrow and Parquet files) or that only plug the engine into its server
NO_PCH = re.compile(r"api/kvsservice/serializer\.cpp")  # a name of its own is also one of the precompiled headers
ENGINE_EXCLUDED = re.compile(r"executor/file/(arrow|parquet)_|api/(resource|service)/|api/kvsservice/(resource|service)\.cpp")


def engine_sources(check):
    """Every source of the repository known at the pinned commit that the stand-ins can compile (new files are probed)."""
    with open(os.path.join(HERE, "known_sources.txt")) as f:
        known = set(x.strip() for x in f)
    return sorted(s for s in known if s.startswith("src/jogasaki/") and s.endswith(".cpp") and not ENGINE_EXCLUDED.search(s)
                  and ("ENABLE_ALTIMETER" in check.get("cflags", "") or "altimeter_event_logging" not in s) and os.path.exists(os.path.join(REPO, s)))


def includes(check):
    inc = []
    if check.get("shim"):
        inc.append(os.path.join(HERE, "shim"))
    inc += [HERE + "/lib", HERE + "/harness", REPO + "/include", REPO + "/src", BUILD + "/protos"]
    inc += [os.path.join(REPO, x) for x in check.get("inc", [])]
    return " ".join("-I" + x for x in inc)


def gen_ninja(props, fuzz=False):
    cxx = "clang++" if fuzz else "g++"
    base = BASE if not fuzz else BASE + " -DPBT_FUZZ -Wno-everything"
    san = SAN.replace("pointer-overflow", "pointer-overflow,fuzzer-no-link") if fuzz else SAN
    if fuzz:
        san = san.replace(",bounds", ",array-bounds")
    o = []
    w = o.append
    w("ninja_required_version = 1.8")
    w("builddir = %s" % BUILD)
    w("rule cxx\n  command = %s $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in" % cxx)
    w("rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out")
    w("rule link\n  command = %s $flags -o $out $objs $libs\n  description = LINK $out" % ("clang++" if any(CHECKS[p].get("engine") for p in props) else cxx))
    w("rule protoc_shim\n  command = protoc -I%s/shim/proto --cpp_out=%s/protos $in\n  description = PROTOC $in" % (HERE, BUILD))
    w("rule pch\n  command = clang++ $flags -fpch-instantiate-templates -x c++-header $in -MMD -MF $out.d -o $out\n  depfile = $out.d\n  deps = gcc\n  description = PCH $out")
    w("rule clang\n  command = clang++ $flags -include-pch $pch -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    w("rule clang_plain\n  command = clang++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    w("rule protoc\n  command = protoc -I%s/src --cpp_out=%s/protos $in\n  description = PROTOC $in" % (REPO, BUILD))
    protos = sorted(glob.glob(REPO + "/src/**/*.proto", recursive=True))
    pb_cc, pb_h = [], []
    engine = any(CHECKS[p].get("engine") for p in props)
    if engine:
        diag = "%s/protos/tateyama/proto/diagnostics.pb" % BUILD
        w("build %s.cc %s.h: protoc_shim %s/shim/proto/tateyama/proto/diagnostics.proto" % (diag, diag, HERE))
        pb_cc.append(diag + ".cc")
        pb_h.append(diag + ".h")
    for p in protos:
        rel = os.path.relpath(p, REPO + "/src")[:-6]
        cc, h = "%s/protos/%s.pb.cc" % (BUILD, rel), "%s/protos/%s.pb.h" % (BUILD, rel)
        pb_cc.append(cc)
        pb_h.append(h)
        w("build %s %s: protoc %s" % (cc, h, p))
    objs_done = {}
    tag = "fuzz/" if fuzz else ""

    def obj(srcpath, flags, order=""):
        key = hashlib.sha1((flags + "|" + srcpath).encode()).hexdigest()[:8]
        name = re.sub(r"[^A-Za-z0-9_.]", "_", os.path.relpath(srcpath, "/"))
        out = "%s/%sobj/%s-%s.o" % (BUILD, tag, name, key)
        if out not in objs_done:
            objs_done[out] = 1
            w("build %s: cxx %s%s\n  flags = %s" % (out, srcpath, " || " + order if order else "", flags))
        return out

    extra = new_sources()
    for p in props:
        c = CHECKS[p]
        if c.get("engine"):
            gen_engine(w, p, c, pb_cc, pb_h, extra)
            continue
        use_proto = c.get("proto")
        flags = " ".join([base, san, c.get("cflags", ""), includes(c)])
        order = " ".join(pb_h) if use_proto else ""
        main = [obj(HERE + "/lib/pbt_main.cpp", " ".join([base, san, "-I" + HERE + "/lib"]))]
        for h in c["harness"]:
            main.append(obj(HERE + "/harness/" + h, flags, order))
        lib = []
        for s in repo_sources(c):
            path = os.path.join(REPO, s)
            if os.path.exists(path):
                lib.append(obj(path, flags, order))
        for s in c.get("shim_src", []):
            lib.append(obj(os.path.join(HERE, "shim", s), flags, order))
        for s in extra:
            if s in USABLE_EXTRA.get(p, extra):
                lib.append(obj(os.path.join(REPO, s), flags, order))
        if use_proto:
            for cc in pb_cc:
                if use_proto == "kvs" or "/sql/" in cc or "/metadata/" in cc:
                    lib.append(obj(cc, " ".join([base.replace("-O1", "-O0"), san.split(" ")[0].split(",")[0] if False else "-fsanitize=address", "-I%s/protos" % BUILD]), order))
        a = "%s/%slib/%s.a" % (BUILD, tag, p)
        exe = "%s/%sbin/%s" % (BUILD, tag, p)
        libs = c.get("libs", "")
        if use_proto:
            libs += " -lprotobuf"
        lflags = "-pthread " + san.replace("fuzzer-no-link", "fuzzer") + " -fno-sanitize=vptr"
        dep = list(main)
        if lib:
            w("build %s: ar %s" % (a, " ".join(lib)))
            dep.append(a)
        w("build %s: link %s\n  objs = %s\n  flags = %s\n  libs = %s" % (
            exe, " ".join(dep), " ".join(main + ([a] if lib else [])), lflags, libs))
        w("build %s%s: phony %s" % ("fuzz-" if fuzz else "", p, exe))
    return "\n".join(o) + "\n"


def gen_engine(w, p, c, pb_cc, pb_h, extra):
    """The whole engine, compiled by clang with a precompiled header: some 340 sources in about two minutes on eight cores."""
    flags = " ".join([ENGINE, c.get("cflags", ""), includes(c)])
    key = hashlib.sha1(flags.encode()).hexdigest()[:8]
    pch = "%s/engine-%s.pch" % (BUILD, key)
    w("build %s: pch %s/shim/engine_pch.h || %s\n  flags = %s" % (pch, HERE, " ".join(pb_h), flags))

    def obj(src):
        out = "%s/obj/E_%s-%s.o" % (BUILD, re.sub(r"[^A-Za-z0-9_.]", "_", os.path.relpath(src, "/")), key)
        if NO_PCH.search(src):
            w("build %s: clang_plain %s || %s\n  flags = %s" % (out, src, " ".join(pb_h), flags))
        else:
            w("build %s: clang %s | %s || %s\n  flags = %s\n  pch = %s" % (out, src, pch, " ".join(pb_h), flags, pch))
        return out

    main = [obj(HERE + "/lib/pbt_main.cpp")] + [obj(HERE + "/harness/" + h) for h in c["harness"]]
    lib = [obj(os.path.join(REPO, s)) for s in repo_sources(c) + [s for s in extra if s in USABLE_EXTRA.get(p, extra)]]
    lib += [obj(os.path.join(HERE, "shim", s)) for s in ["stub/file_readers.cpp"] + c.get("shim_src", [])]
    lib += [obj(cc) for cc in pb_cc]
    a, exe = "%s/lib/%s.a" % (BUILD, p), "%s/bin/%s" % (BUILD, p)
    w("build %s: ar %s" % (a, " ".join(lib)))
    w("build %s: link %s %s\n  objs = %s %s\n  flags = -pthread -fsanitize=address -Wl,--gc-sections\n  libs = %s %s" % (exe, a, " ".join(main), " ".join(main), a, ENGINE_LIBS, c.get("libs", "")))
    w("build %s: phony %s" % (p, exe))


USABLE_EXTRA = {}


def usable_extras(prop, fuzz):
    """A new file that cannot be compiled with this check's includes belongs to a part this check does not build."""
    ex = new_sources()
    if not ex:
        return
    c = CHECKS[prop]
    ok = []
    for s in ex:
        cmd = "g++ -fsyntax-only %s %s %s" % ((ENGINE + " -include prelude.h") if c.get("engine") else BASE, includes(c), os.path.join(REPO, s))
        if subprocess.run(cmd, shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            ok.append(s)
    USABLE_EXTRA[prop] = ok


def build(prop, fuzz=False):
    os.makedirs(BUILD + "/protos", exist_ok=True)
    for d in ("obj", "lib", "bin", "fuzz/obj", "fuzz/lib", "fuzz/bin"):
        os.makedirs(BUILD + "/" + d, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if CHECKS[prop].get("proto") and new_sources():
            # generated headers are needed before the probe
            nf = BUILD + "/proto.ninja"
            with open(nf, "w") as f:
                f.write(gen_ninja([], fuzz))
            subprocess.run(["ninja", "-f", nf], stdout=subprocess.DEVNULL)
        usable_extras(prop, fuzz)
        nf = "%s/%s%s.ninja" % (BUILD, "fuzz-" if fuzz else "", prop)
        text = gen_ninja([prop], fuzz)
        with open(nf, "w") as f:
            f.write(text)
        r = subprocess.run(["ninja", "-j8", "-f", nf, ("fuzz-" if fuzz else "") + prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("ERROR: build failed for %s" % prop)
        sys.exit(2)
    return "%s/%sbin/%s" % (BUILD, "fuzz/" if fuzz else "", prop)


def env_for_run():
    e = dict(os.environ)
    e.pop("ASAN_OPTIONS", None)
    e.pop("UBSAN_OPTIONS", None)
    return e


def fuzz_campaign(prop, exe, seed, total_s, replay_dir, stats):
    """thorough tier: coverage-guided search over the same properties (bytes are decoded as choices)."""
    listing = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=env_for_run()).stdout.split("\n")
    fz = [x[:-5] for x in listing if x.endswith(" fuzz")]
    if not fz:
        return 0
    fexe = build(prop, fuzz=True)
    per = max(10, int(total_s / len(fz)))
    work = tempfile.mkdtemp(prefix="pbtfuzz.")
    res = []
    rc = 0
    try:
        for f in fz:
            corpus = os.path.join(work, "c")
            os.makedirs(corpus, exist_ok=True)
            e = env_for_run()
            e["PBT_FUZZ_FACET"] = f
            e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
            cmd = [fexe, corpus, "-seed=%d" % (seed or 1), "-max_total_time=%d" % per, "-max_len=2048", "-timeout=60", "-rss_limit_mb=3000",
                   "-artifact_prefix=%s/" % work, "-print_final_stats=1", "-jobs=8", "-workers=8"]
            r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            execs, cov = 0, 0
            for lf in glob.glob(work + "/fuzz-*.log"):
                t = open(lf, errors="replace").read()
                m = re.findall(r"stat::number_of_executed_units: (\d+)", t)
                execs += int(m[-1]) if m else 0
                m = re.findall(r"cov: (\d+)", t)
                cov = max(cov, int(m[-1]) if m else 0)
                os.unlink(lf)
            arts = sorted(glob.glob(work + "/crash-*") + glob.glob(work + "/timeout-*"))
            res.append({"facet": f, "executed": execs, "edges": cov, "artifacts": len(arts), "seconds": per})
            print("# libFuzzer %s: %d executions, %d edges, %d artifacts" % (f, execs, cov, len(arts)), flush=True)
            for a in arts[:5]:
                q = subprocess.run([exe, "--property", prop, "--facet", f, "--replay-bytes", a, "--replay-dir", replay_dir],
                                   env=env_for_run(), stdout=subprocess.PIPE, text=True, errors="replace")
                sys.stdout.write(q.stdout)
                if q.returncode == 1:
                    rc = 1
                    break
            shutil.rmtree(corpus)
            for a in arts:
                os.unlink(a)
            if rc:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    stats["libfuzzer"] = res
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--facet", default="")
    ap.add_argument("--factor", type=float, default=1.0)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--labels", action="store_true")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    prop = a.property
    c = CHECKS[prop]
    t0 = time.time()
    exe = build(prop)
    tb = time.time() - t0
    if a.build_only:
        return 0
    replay_dir = HERE + "/replays"
    if a.replay:
        return subprocess.run([exe, "--property", prop, "--replay", os.path.abspath(a.replay)], env=env_for_run()).returncode
    cap = a.cap or (c.get("cap", 60) if a.tier == "quick" else 400)
    statf = "%s/stats-%s.json" % (BUILD, prop)
    if os.path.exists(statf):
        os.unlink(statf)
    cmd = [exe, "--property", prop, "--seed", str(a.seed), "--tier", "labels" if a.labels else a.tier, "--stats", statf, "--replay-dir", replay_dir,
           "--cap", str(cap), "--factor", str(a.factor * c.get("factor", 1))]
    if a.facet:
        cmd += ["--facet", a.facet]
    sys.stdout.flush()
    rc = subprocess.run(cmd, env=env_for_run()).returncode
    if rc not in (0, 1):
        print("ERROR: harness exited with %d" % rc)
        return 2
    st = json.load(open(statf)) if os.path.exists(statf) else {"facets": []}
    if a.tier == "thorough" and rc == 0 and not a.facet and c.get("fuzz", not c.get("engine")):
        rc = fuzz_campaign(prop, exe, a.seed, 200, replay_dir, st)
    write_evidence(prop, a, st, rc, time.time() - t0, tb)
    print("# %s %s: build %.1f s, total %.1f s" % (prop, "VIOLATED" if rc else "held", tb, time.time() - t0))
    return rc


def write_evidence(prop, a, st, rc, wall, tb):
    c = CHECKS[prop]
    fs = st["facets"]
    samples = []
    for f in fs:
        for s in f["samples"][:2]:
            samples.append("[%s] %s" % (f["name"], s.strip()[:600]))
    ev = {
        "property": prop,
        "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": a.seed,
        "level": c["level"],
        "coverage": {
            "evaluations": sum(f["cases"] for f in fs),
            "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in fs),
            "rule": "; ".join("%s: %s" % (f["name"], f["rule"]) for f in fs) or "none",
            "samples": samples[:40] or ["none"],
            "oracle_comparisons": sum(f["ops"] for f in fs),
            "facets": [{k: f[k] for k in ("name", "planned", "cases", "discarded", "nontrivial", "distinct_nontrivial", "ops", "labels", "capped",
                                          "unreproducible", "wall_s")} for f in fs],
            "build_s": round(tb, 1),
            "repo_sources": repo_sources(c),
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if rc else 0,
    }
    if "libfuzzer" in st:
        ev["coverage"]["libfuzzer"] = st["libfuzzer"]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
