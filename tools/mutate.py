#!/usr/bin/env python3
"""Mutation sweep: how many small changes of the compiled sources do the checks notice?

    mutate.py WORK PER_FILE SEED [FILE...]     WORK/repo is a copy of /repo, WORK/verif a copy of /verif

Prints one line per mutant: killed / SURVIVED / nobuild, with the check, the file, the line and the edit."""
import os
import random
import re
import subprocess
import sys

work, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
sys.path.insert(0, work + "/verif")
from checks import CHECKS  # noqa: E402
sys.argv = [sys.argv[0]] + sys.argv[4:]
import importlib.util  # noqa: E402
spec = importlib.util.spec_from_file_location("run", work + "/verif/run.py")
run = importlib.util.module_from_spec(spec)
spec.loader.exec_module(run)

HEADERS = {
    "src/jogasaki/accessor/text.h": "P02", "src/jogasaki/api/impl/map_error_code.h": "P07", "src/jogasaki/api/kvsservice/mapped_record.h": "P09",
    "src/jogasaki/data/aligned_buffer.h": "P02", "src/jogasaki/error/error_info.h": "P07", "include/jogasaki/lob/lob_reference.h": "P11",
    "src/jogasaki/memory/fifo_paged_memory_resource.h": "P12", "src/jogasaki/memory/lifo_paged_memory_resource.h": "P12",
    "src/jogasaki/utils/aligned_unique_ptr.h": "P10", "src/jogasaki/utils/base_filename.h": "P10", "src/jogasaki/utils/binary_printer.h": "P01",
    "src/jogasaki/utils/checkpoint_holder.h": "P12", "src/jogasaki/utils/convert_offset_string.h": "P10", "src/jogasaki/utils/hex.h": "P10",
    "src/jogasaki/utils/random.h": "P10", "src/jogasaki/utils/round.h": "P10", "src/jogasaki/utils/surrogate_id_utils.h": "P10",
    "src/jogasaki/utils/subtract_vectors.h": "P10", "src/jogasaki/utils/map_schema_name.h": "P10", "src/jogasaki/utils/string_utils.h": "P01",
    "src/jogasaki/utils/latch.h": "P08", "src/jogasaki/utils/watch.h": "P08", "src/jogasaki/utils/performance_tools.h": "P09",
    "src/jogasaki/udf/generic_record_impl.h": "P03", "src/jogasaki/utils/waitable_atomic.h": "P08", "src/jogasaki/utils/hash_combine.h": "P10",
    "include/jogasaki/utils/hash_combine.h": "P10", "include/jogasaki/utils/split_mix64.h": "P10", "src/jogasaki/udf/descriptor_impl.h": "P04",
    "include/jogasaki/error_code.h": "P07", "include/jogasaki/status.h": "P07", "src/jogasaki/executor/diagnostic_record.h": "P10", "src/jogasaki/udf/enum_types.h": "P04",
    "src/jogasaki/utils/use_counter.h": "P08", "src/jogasaki/executor/io/record_channel_stats.h": "P10", "src/jogasaki/executor/process/impl/region_id.h": "P10",
    "src/jogasaki/kvs/coding_context.h": "P14", "include/jogasaki/request_statistics.h": "P09",
}


OWNER = {"text.cpp": ["P02"], "binary_string_value.cpp": ["P02"], "aligned_buffer.cpp": ["P02"], "page_allocation_info.cpp": ["P12"], "error_info.cpp": ["P07"],
         "base64_utils.cpp": ["P05"], "hex_to_octet.cpp": ["P05"], "latch.cpp": ["P08"], "use_counter.cpp": ["P08"], "watch.cpp": ["P09"], "performance_tools.cpp": ["P09"],
         "request_statistics.cpp": ["P09"], "convert_control_characters.cpp": ["P01"], "sanitize_utf8.cpp": ["P01"], "string_manipulation.cpp": ["P01"],
         "string_utils.cpp": ["P01"], "utf8_utils.cpp": ["P01"], "character_field_option.cpp": ["P11"], "decimal_field_option.cpp": ["P11"], "octet_field_option.cpp": ["P11"],
         "time_of_day_field_option.cpp": ["P11"], "time_point_field_option.cpp": ["P11"]}


def code_lines(text):
    out, incomment = [], False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s:
                incomment = True
            continue
        if not s or s.startswith(("//", "#", "*", "namespace", "using", "template", "class", "struct", "friend")):
            continue
        if s in ("{", "}", "};", "public:", "private:") or "LOG" in s or "static_assert" in s or "operator<<" in s or "= default" in s or "= delete" in s:
            continue
        out.append(i)
    return out


RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+ ", " - "), (r" - ", " + "), (r"\+\+", "--"), (r" \+= ", " -= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if\s*\(!", "if("),
         (r"if\s*\((?!!)", "if(!"), (r" & ", " | "), (r" \| ", " & "), (r" << (?=\d)", " >> "), (r" >> (?=\d)", " << "), (r"\breturn (?=[a-z_]+;)", "return !"),
         (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r" % ", " / "), (r" / ", " * "), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r" \* ", " + ")]


def mutants(text):
    lines = text.split("\n")
    res = []
    for i in code_lines(text):
        l = lines[i]
        code = l.split("//")[0]
        for a, b in RULES:
            for m in re.finditer(a, code):
                res.append((i, code[:m.start()] + b + code[m.end():]))
        for m in re.finditer(r"(?<![\w.\"'])(0x[0-9A-Fa-f]+|\d+)(?![\w.\"'])", code):
            v = int(m.group(1), 0)
            for n in ((v + 1), max(0, v - 1)) if v else (1,):
                res.append((i, code[:m.start()] + (hex(n) if m.group(1).startswith("0x") else str(n)) + code[m.end():]))
        s = code.strip()
        if s.endswith(";") and not s.startswith(("return", "const", "auto", "std::", "int", "break", "continue", "throw", "default:", "case", "[[", "explicit", "static", "virtual")) \
                and re.match(r"^[\w.\->:\[\]()*+]+(\(| = |\+\+|\+= |\|= )", s) and " const" not in s:
            res.append((i, code[:len(code) - len(code.lstrip())] + ";"))
    return res


def main():
    rnd = random.Random(seed)
    repo = work + "/repo"
    with open(repo + "/_build/sources.txt") as f:
        srcs = f.read().split()
    prop_of = {}
    for s in srcs:
        for p in sorted(CHECKS):
            if s in run.repo_sources(CHECKS[p]):
                prop_of.setdefault(s, []).append(p)
    for h, p in HEADERS.items():
        if os.path.exists(repo + "/" + h):
            prop_of[h] = [p]
    todo = []
    given = {}
    for a in sys.argv[1:]:  # FILE or FILE=P24,P25
        f, _, p = a.partition("=")
        given[f] = p.split(",") if p else None
    for s in (given or prop_of):
        text = open(repo + "/" + s).read()
        ms = mutants(text)
        rnd.shuffle(ms)
        for m in ms[:per]:
            todo.append((s, m))
    rnd.shuffle(todo)
    env = dict(os.environ, VERIF_REPO=repo)
    for s, (i, new) in todo:
        path = repo + "/" + s
        text = open(path).read()
        lines = text.split("\n")
        old = lines[i]
        lines[i] = new
        props = given.get(s) or (["P04"] if "/udf/descriptor" in s or "plugin_api" in s or "udf_config" in s else OWNER.get(s.split("/")[-1], prop_of[s][:1]))
        verdict = "SURVIVED"
        try:
            with open(path, "w") as f:
                f.write("\n".join(lines))
            for p in props:
                r = subprocess.run(["python3", work + "/verif/run.py", p], cwd=work + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if r.returncode == 2:
                    verdict = "nobuild"
                    break
                if r.returncode == 1:
                    verdict = "killed"
                    break
        finally:
            with open(path, "w") as f:
                f.write(text)
        print("%s %s %s:%d\n    - %s\n    + %s" % (verdict, ",".join(props), s, i + 1, old.strip(), new.strip()), flush=True)


main()
