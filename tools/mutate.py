#!/usr/bin/env python3
"""Textual mutants of the library against the checks (a measure of what they miss; no check uses it).

  mutate.py list [SEED N]           print N mutants (all without SEED N)
  mutate.py run OUT SEED N [PLAN]   try N mutants on a scratch copy of /repo, append results to OUT (JSON lines),
                                    leaving out those OUT has already

Each mutant is one token changed in /repo/src.  Every check runs with PLAN (default prod:1) on a
scratch copy until one reports it, and those that did are recorded; the survivors are to be read by hand.
"""
import json, os, random, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["dat.cpp", "datetime_read.hpp", "datetime_write.hpp", "dtcalendar.hpp", "dtfund.cpp", "dtfund.hpp"]
OPS = [  # (regex, replacements)
    (r"(?<![<>=!+\-*/&|])<=(?!=)", ["<"]), (r"(?<![<>=!\-])>=(?!=)", [">"]),
    (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]),
    (r"(?<=[\w)}\]] )\+(?= [\w({])|(?<=[\w)])\+(?=[\w(])", ["-"]), (r"(?<=[\w)}\]] )-(?= [\w({])|(?<=[\w)\]])-(?=[\w(])", ["+"]),
    (r"(?<=[\w)}\]])\s?\*(?=\s?[\w(:])", ["/"]), (r"(?<=[\w)}\]])\s?/(?=\s?[\w(:])", ["*"]), (r"%", ["/"]),
    (r"(?<![\w.\"'])(\d+)(L|l|e0|e\d|e-\d)?(?![\w.\"'])", ["+1", "-1"]),
    (r"!(?=[\w(_])", [""]), (r"\blong\b", ["int"]), (r"\bdouble\b", ["float"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"static_cast<[^<>]*(?:<[^<>]*>)?[^<>]*>(?=\()", [""]), (r"static_cast<double>", ["static_cast<float>", "static_cast<long>"]),
    (r"\bs[12]\b|\bd[12]\b|\b[mM]_sec\b", None), (r"^(\s*)([\w.\->:]+(?:\(.*\))?(?:\s*[+\-*/%]?=.*)?;)\s*$", ["DEL"]),
    (r"\bminutes\b", ["hours"]), (r"sec_factor<", ["DUP"]),
]


def strip(line):
    i = line.find("//")
    return line if i < 0 else line[:i]


def mutants():
    out = []
    for f in FILES:
        src = open(os.path.join("/repo/src", f)).read().split("\n")
        for n, line in enumerate(src):
            code = strip(line)
            if not code.strip() or code.lstrip().startswith(("#", "*", "/*", "template", "assert", "static_assert", "using", "class", "operator", "typename", "std::enable")): continue
            if "enable_if" in code or "is_same" in code or "static_assert" in code: continue
            for rx, reps in OPS:
                for m in re.finditer(rx, code):
                    if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                    t = m.group(0)
                    for r in reps or []:
                        if r in ("+1", "-1"):
                            new = str(int(m.group(1)) + int(r)) + (m.group(2) or "")
                            if int(m.group(1)) + int(r) < 0: continue
                        elif r == "DEL": new = m.group(1) + ";"
                        elif r == "DUP": continue
                        else: new = r
                        mut = line[:m.start()] + new + line[m.end():]
                        if mut != line: out.append((f, n, line, mut))
    seen, uniq = set(), []
    for m in out:
        k = (m[0], m[1], m[3])
        if k not in seen: seen.add(k); uniq.append(m)
    return uniq


def sample(seed, n):
    ms = mutants(); rnd = random.Random(seed); rnd.shuffle(ms)
    ms.sort(key=lambda m: not m[3].strip() == ";")     # deleted statements first
    return ms[:n]


def run(outfile, seed, n, plan):
    root = "/tmp/mut-%d" % os.getpid(); repo = root + "/repo"; ver = root + "/verif"
    os.makedirs(root); subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    subprocess.run(["git", "clone", "-q", HERE, ver], check=True)
    first = "C17 C05 C12 C13 C14 C06 C10 C15".split()
    checks = [p["id"] for p in map(json.loads, open(HERE + "/properties.jsonl")) if p["id"] not in ("C19", "C21", "C22", "C24")]
    checks.sort(key=lambda c: first.index(c) if c in first else 99)
    done = set()
    if os.path.exists(outfile):
        for r in map(json.loads, open(outfile)): done.add((r["file"], r["old"], r["new"]))
    try:
        for i, (f, ln, old, new) in enumerate(sample(seed, n)):
            if (f, old.strip(), new.strip()) in done: continue
            path = os.path.join(repo, "src", f); orig = open(path).read()
            lines = orig.split("\n"); assert lines[ln] == old; lines[ln] = new
            open(path, "w").write("\n".join(lines))
            rec = {"file": f, "line": ln + 1, "old": old.strip(), "new": new.strip()}
            try:
                c = subprocess.run("g++ -std=c++17 -w -fsyntax-only -I%s/src -include %s/src/datetime_read.hpp -include %s/src/datetime_write.hpp %s/src/dtfund.cpp && g++ -std=c++17 -w -fsyntax-only -I%s/src %s/src/dat.cpp" % ((repo,) * 6), shell=True, stderr=subprocess.DEVNULL)
                if c.returncode: rec["state"] = "no compile"
                else:
                    env = dict(os.environ, VERIF_REPO=repo, VERIF_PLAN=plan, VERIF_TIER="quick", VERIF_SEED="1")
                    procs = []
                    res = {}
                    todo = list(checks)
                    while todo or procs:
                        while todo and len(procs) < 6:
                            p = todo.pop(0); procs.append((p, subprocess.Popen([sys.executable, "check.py", p], cwd=ver, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
                        p, q = procs.pop(0); res[p] = q.wait()
                        if res[p] == 1: todo = []      # the first few checks that report it are enough
                    rec["caught"] = [p for p in checks if res.get(p) == 1]; rec["odd"] = [p for p in checks if res.get(p, 0) not in (0, 1)]
                    rec["state"] = "caught" if rec["caught"] else "odd" if rec["odd"] else "SURVIVED"
            finally:
                open(path, "w").write(orig)
            with open(outfile, "a") as o: o.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["list"]:
        ms = sample(int(a[1]), int(a[2])) if len(a) == 3 else mutants()
        for f, n, o, m in ms: print("%s:%d\n- %s\n+ %s" % (f, n + 1, o.strip(), m.strip()))
        print(len(ms))
    elif a[:1] == ["run"] and len(a) >= 4: run(a[1], int(a[2]), int(a[3]), a[4] if len(a) > 4 else "prod:1")
    else: print(__doc__)
