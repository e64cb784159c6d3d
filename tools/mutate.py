#!/usr/bin/env python3
"""Mutation campaign (a development aid, not a check): plants small mechanical changes in a scratch
copy of the repository, one at a time, and reports those that no given check notices.

usage: mutate.py <copy> <prop,prop..> <file>[:first-last] ... [--max N] [--seed N]
"""
import os
import random
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SWAPS = [("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "),
         ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"), ("++", "--"),
         (" + ", " - "), (" - ", " + "), ("notify_one", "notify_all"),
         ("push_back", "push_front"), ("push_front", "push_back"), ("emplace_back", "emplace_front"),
         ("front()", "back()"), ("back()", "front()"), ("begin()", "end()"), ("pop_front", "pop_back"),
         (".store(true)", ".store(false)"), (".store(false)", ".store(true)")]


def mutants(path, text, first, last):
    lines = text.split("\n")
    out = []
    comment = False
    for n, line in enumerate(lines):
        s = line.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith("//") or s.startswith("*") or s.startswith("#"):
            continue
        if not first <= n + 1 <= last:
            continue
        code = line.split("//")[0]

        def put(new, what):
            if new != line:
                out.append((n, new, what))
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), code):
                i = m.start()
                if a in ("true", "false") and re.match(r"\w", (code[i - 1:i] + code[i + len(a):i + len(a) + 1]).strip() or " "):
                    continue
                if a in ("==", "!=", "<=", ">=") and code[i - 1:i] in "<>=!":
                    continue
                if code[:i].count('"') % 2:
                    continue
                put(line[:i] + b + line[i + len(a):], a + " -> " + b)
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            if code[:m.start()].count('"') % 2:
                continue
            v = int(m.group(1))
            put(line[:m.start()] + str(v + 1) + line[m.end():], "number+1")
            if v > 0:
                put(line[:m.start()] + str(v - 1) + line[m.end():], "number-1")
        m = re.match(r"(\s*)(if|while) \((.*)\)\s*$", code)
        if m:
            put("%s%s (!(%s))" % m.groups(), "negate")
            put("%s%s ((%s) && false)" % m.groups(), "never")
            if m.group(2) == "if":
                put("%s%s ((%s) || true)" % m.groups(), "always")
        m = re.match(r"\s*return (.*);\s*$", code)
        if m and m.group(1) not in ("true", "false") and not m.group(1).startswith("std::move"):
            put(re.sub(r"return .*;", "return {};", line), "return {}")
        if s.endswith(";") and not re.match(r"(return|using|typedef|class|struct|enum|break|continue|}|public|private|const |static |auto |virtual|friend|template)", s) \
                and ("(" in s or "=" in s) and not re.match(r"[\w:<>,\s&*]+ \w+\([^;]*\)( const)?( override)?( = \w+)?;$", s):
            put(re.match(r"\s*", line).group(0) + ";", "delete: " + s[:60])
        if s in ("break;", "continue;"):
            put(re.match(r"\s*", line).group(0) + ";", "delete " + s)
        for m in re.finditer(r"\b(\w+)::(k?[A-Z]\w*)\b", code):
            others = sorted(set(x for x in re.findall(r"\b%s::(k?[A-Z]\w*)\b" % m.group(1), text)) - {m.group(2)})
            for o in others[:2]:
                put(line[:m.start()] + m.group(1) + "::" + o + line[m.end():], m.group(2) + " -> " + o)
        for m in re.finditer(r'"([^"]*)"', code):
            if "rror" not in code and "essage" not in code and "include" not in code:
                put(line[:m.start()] + '"' + m.group(1) + "x" + '"' + line[m.end():], "string")
    return out


def main():
    args = sys.argv[1:]
    limit, seed = 10 ** 9, 1
    while "--max" in args:
        i = args.index("--max"); limit = int(args[i + 1]); del args[i:i + 2]
    while "--seed" in args:
        i = args.index("--seed"); seed = int(args[i + 1]); del args[i:i + 2]
    copy, props, files = args[0], args[1].split(","), args[2:]
    work = []
    for f in files:
        first, last = 1, 10 ** 9
        if ":" in f:
            f, r = f.split(":"); first, last = map(int, r.split("-"))
        p = os.path.join(copy, "src/lib/sup/oac-tree", f)
        text = open(p).read()
        work += [(p, text, m) for m in mutants(p, text, first, last)]
    random.Random(seed).shuffle(work)
    work = work[:limit]
    env = dict(os.environ, VERIF_REPO=copy, VERIF_TIER="quick", VERIF_SEED="1")
    stats = {"killed": 0, "invalid": 0, "survived": 0}
    for k, (p, text, (n, new, what)) in enumerate(work):
        lines = text.split("\n")
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        verdict = "survived"
        try:
            for prop in props:
                try:
                    r = subprocess.run([sys.executable, "check.py", prop], cwd=os.path.dirname(HERE), env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                    rc, o = r.returncode, r.stdout.decode(errors="replace")
                except subprocess.TimeoutExpired:
                    rc, o = 77, "timeout"
                if rc == 2 and ("error:" in o or "undefined reference" in o):
                    verdict = "invalid"
                    break
                if rc != 0:
                    verdict = "killed" if rc == 1 else "killed(rc %d)" % rc
                    verdict += " by " + prop
                    break
        finally:
            open(p, "w").write(text)
        key = verdict.split()[0].split("(")[0]
        stats[key] += 1
        print("%d/%d %s %s:%d [%s] %s => %s" % (k + 1, len(work), verdict, os.path.basename(p), n + 1, what,
                                                text.split("\n")[n].strip()[:90], new.strip()[:90]), flush=True)
    print(stats)


main()
