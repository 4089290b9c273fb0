#!/usr/bin/env python3
"""Mutates the sources behind the properties, one place at a time, and runs the checks that are responsible.

usage: mutate.py [--files REGEX] [--per-file N] [--slots N] [--seed N] [--budget S] [--out FILE] [--only-lines FILE]
Works in scratch copies of /repo under /tmp/mut. What survives every check is worth a look: it is equivalent, outside the
properties, or shows a hole in a check.
"""
import argparse, concurrent.futures, json, os, queue, random, re, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/mut"
MAP = [  # first match
    (r"/sonata", "C33"), (r"/storage", "C34"),
    (r"populations/altai/", "C09 C14"), (r"populations/blifat/", "C08 C14"), (r"populations/lif/", "C10"),
    (r"populations/training/", "C14"), (r"populations/population_disp", "C08 C12"),
    (r"projections/delta/|projections/message_queue|projections/projection_disp", "C11 C12"),
    (r"projections/training/stdp/additive", "C15 C16"), (r"projections/training/", "C14 C15 C16"),
    (r"cpu-library/init.h", "C15 C16 C17 C18"), (r"cpu-library/(populations|projections).h", "C08 C09 C10 C11 C12 C15 C35"),
    (r"cpu-multi-threaded-backend/", "C12 C17 C18 C08 C16 C13"), (r"cpu-single-threaded-backend/", "C11 C12 C17 C18 C16 C35"),
    (r"thread_pool/", "C19 C12"), (r"backend_loader", "C31"), (r"data_processing/", "C27"), (r"inference_eval", "C28"),
    (r"input_converter|io/in_conv|io/out_conv|input_interp|output_conv|/synchron", "C21 C20"), (r"output_channel", "C21 C20"),
    (r"message_handlers", "C22 C20"), (r"impl/model.cpp|framework/model.h", "C07 C20"),
    (r"model_executor|model_loader|input_channel", "C20 C23"), (r"monitoring|impl/observer", "C23"),
    (r"impl/network.cpp|framework/network.h", "C07"), (r"network_valid", "C29"), (r"wta", "C22 C24"),
    (r"visualizer", "C30"), (r"coordinates|framework/population", "C25"), (r"normalization", "C26"),
    (r"framework/projection", "C24"), (r"tags/name|core/tag|core/uid|impl/uid", "C03 C07"),
    (r"core-library/.*backend", "C18 C17 C11"), (r"message_bus|message_endpoint|subscription", "C04 C05 C35"),
    (r"messaging|message_header", "C06"), (r"core/population|impl/population", "C01"), (r"core/projection|impl/projection", "C02"),
    (r"core-library/.*device", "C18 C31"), (r"python-framework", "C32"),
]
SKIP = r"/test|/example|cuda|_old\.h|x86_cpu|logging|precomp|impexp|-traits-library|cpu\.h|meta-library|highfive|exports"
OPS = [
    (r"(?<![<>=!\-+*/&|])<(?![<=>])(?=\s)", "<="), (r"(?<=\s)>(?![>=])(?=\s)", ">="), (r"<=", "<"), (r"(?<![-=<>])>=", ">"),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\s(])!(?=[\w(])", ""),
    (r"(?<=[\w\])] )\+(?= )", "-"), (r"(?<=[\w\])] )-(?= )", "+"), (r"(?<=[\w\])] )\*(?= [\w(])", "/"), (r"(?<=[\w\])] )/(?= )", "*"),
    (r"(?<=[\w\])] )%(?= )", "/"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="),
    (r"\+\+(?=\w)", "--"), (r"\bmin\b(?=[(<])", "max"), (r"\bmax\b(?=[(<])", "min"),
    (r"(?<![\w.\"])0(?![\w.\"])", "1"), (r"(?<![\w.\"])1(?![\w.\"])", "0"), (r"(?<![\w.\"])1(?![\w.\"])", "2"), (r"(?<![\w.\"])2(?![\w.\"])", "3"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
    (r"\breturn;", ";"), (r"\.begin\(\)", ".end()"), (r"\bif \((?!constexpr)", "if (true || "), (r"\bif \((?!constexpr)", "if (false && "),
    (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"\bfirst\b", "second"), (r"_pre\b", "_post"),
    (r"presynaptic", "postsynaptic"), (r"postsynaptic", "presynaptic"), (r"\bstd::move\((\w+)\)", r"\1"),
]
DELETE = re.compile(r"^\s*(?!return|using|namespace|typedef|throw|break|continue|case|default|static|const |auto |size_t |public|private|[{}])[\w:.\->\[\]*()&]+( [-+*/]?= .*|\(.*\)|\+\+|--);$")


def rarely(n):
    return f"[] {{ static unsigned vp_n; return __atomic_add_fetch(&vp_n, 1, 0) % {n} == 0; }}()"


def mutants(path, text, rare=0):
    """rare: statements that are left out, and conditions that are inverted, every so many times only"""
    out, comment, fixed = [], False, ()
    for n, line in enumerate(text.split("\n")):
        code = line.strip()
        if code.startswith("/*"): comment = "*/" not in code
        elif comment: comment = "*/" not in code
        if comment or code.startswith(("//", "*", "/*", "#", "template", "SPDLOG", "using ", "namespace", "static_assert", "assert")): continue
        if "SPDLOG" in code or "throw " in code or not code: continue
        bare = re.sub(r'"[^"]*"', lambda m: '"' + "_" * (len(m.group()) - 2) + '"', line).split("//")[0]
        if rare:
            if DELETE.match(line): out.append((n, re.match(r"\s*", line).group() + f"if (!{rarely(rare)}) " + code))
            m = re.match(r"(\s*(?:\} else )?(?:else )?if) \((?!constexpr)(.*)\)(\s*\{?| continue;| break;| return.*;)$", line)
            if m and m[2].count("(") == m[2].count(")") and ";" not in m[2]:
                out.append((n, f"{m[1]} (bool({m[2]}) != {rarely(rare)}){m[3]}"))
            m = re.match(r"(\s*return) ([^;{}]+(?:==|!=|<|>|&&|\|\|)[^;{}]+);$", line)
            if m: out.append((n, f"{m[1]} (bool({m[2]}) != {rarely(rare)});"))
            continue
        for pat, new in OPS:
            for m in re.finditer(pat, bare):
                out.append((n, line[:m.start()] + m.expand(new) + line[m.end():]))
        if DELETE.match(line): out.append((n, re.match(r"\s*", line).group() + ";"))
    return out


def run(cmd, env=None, timeout=900):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", default=".")
    ap.add_argument("--per-file", type=int, default=8)
    ap.add_argument("--slots", type=int, default=2)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", default="12")
    ap.add_argument("--rare", type=int, default=0)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--again", help="results file: only what survived there, with the full budget")
    a = ap.parse_args()
    checks = json.load(open(VERIF + "/tools/checks.json"))
    files = subprocess.run(["git", "-C", "/repo", "ls-files", "knp"], stdout=subprocess.PIPE, text=True).stdout.split()
    todo = []
    done = set()
    if os.path.exists(S + "/results.jsonl"):
        for l in open(S + "/results.jsonl"):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    if a.again:
        last = {}
        for l in open(a.again):
            r = json.loads(l)
            last[(r["file"], r["line"], r["new"])] = r
        for k, r in last.items():
            if r["status"] == "survived" and re.search(a.files, r["file"]): todo.append((r["file"], r["line"] - 1, r["old"], r["new"], r["checks"]))
    else:
        for f in files:
            if not re.search(r"\.(h|cpp)$", f) or re.search(SKIP, f) or not re.search(a.files, f): continue
            who = next((c for p, c in MAP if re.search(p, f)), None)
            if not who:
                print("no check for", f)
                continue
            text = open("/repo/" + f).read()
            ms = mutants(f, text, a.rare)
            random.Random(f"{a.seed} {f}").shuffle(ms)
            lines = text.split("\n")
            todo += [(f, n, lines[n], new, who.split()) for n, new in ms if (f, n + 1, new) not in done][: a.per_file]
    random.Random(a.seed).shuffle(todo)
    print(len(todo), "mutants")
    if a.list:
        for t in todo: print(t)
        return
    os.makedirs(S, exist_ok=True)
    slots = queue.Queue()
    for i in range(a.slots):
        d = f"{S}/{i}"
        os.makedirs(d, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", "/repo/", d + "/repo/"], check=True)
        slots.put(d)

    def one(t):
        f, n, old, new, who = t
        d = slots.get()
        try:
            path = f"{d}/repo/{f}"
            text = open("/repo/" + f).read()
            lines = text.split("\n")
            lines[n] = new
            open(path, "w").write("\n".join(lines))
            r = {"file": f, "line": n + 1, "old": old, "new": new, "checks": who, "status": "survived"}
            env = dict(os.environ, KNP_REPO=d + "/repo", VP_BUILD=d + "/build", VP_SHRINK_S="0", VERIF_TIER="quick", VERIF_SEED="1", KNP_CHECK_DIR=VERIF,
                       ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:max_free_fill_size=256",
                       TSAN_OPTIONS="exitcode=66:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1")
            for c in who:
                for st in checks[c]["stages"]:
                    rc, out = run([VERIF + "/tools/build.py", st["target"], st.get("variant", "asan")] if os.access(VERIF + "/tools/build.py", os.X_OK) else ["python3", VERIF + "/tools/build.py", st["target"], st.get("variant", "asan")], env)
                    if rc:
                        r["status"] = "nobuild"
                        break
                    cmd = [out.strip().split("\n")[-1], "--tier", "quick", "--known", VERIF + "/known_findings.jsonl", "--replay-dir", d]
                    if not a.again: cmd += ["--budget", a.budget]
                    rc, out = run(cmd, env)
                    if rc:
                        r["status"] = "caught" if rc == 1 else f"rc {rc}"
                        r["by"] = c
                        break
                if r["status"] != "survived": break
            with open(S + "/results.jsonl", "a") as o: o.write(json.dumps(r) + "\n")
            if r["status"] != "nobuild": print(r["status"], r.get("by", ""), f, n + 1, old.strip(), "=>", new.strip(), flush=True)
            open(path, "w").write(text)
        finally:
            slots.put(d)

    with concurrent.futures.ThreadPoolExecutor(a.slots) as ex: list(ex.map(one, todo))


main()
