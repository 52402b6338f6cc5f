#!/usr/bin/env python3
"""Mutation sweep over the library: how many small edits of the code no check
notices.  Not a registered check; run from a scratch copy of /verif:
   python3 tools/mutate.py REPO_COPY OUT.jsonl [--skip N] [--only FILE] [--seed S] [--max N]
REPO_COPY is a scratch copy of /repo that is edited and restored."""
import json, os, random, re, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C%02d" % i for i in range(1, 20)]

def code(path):
    """the lines before the test module, without comments and imports"""
    out = []
    for i, l in enumerate(open(path).read().split("\n")):
        if re.match(r"#\[cfg\(.*test", l):
            break
        out.append((i, l))
    return out

RULES = [
    (r"^(\s*)(?!let |return|use |pub |//|\}|break|#)([\w\*\.\(\)&:]+.*;)\s*$", lambda m: m.group(1) + "{}", "drop statement"),
    (r"\bif (?!let )(.+) \{$", lambda m: "if !(%s) {" % m.group(1), "negate if"),
    (r"\bif (?!let )(.+) \{$", lambda m: "if true || (%s) {" % m.group(1), "if true"),
    (r"\bwhile (?!let )(.+) \{$", lambda m: "while !(%s) {" % m.group(1), "negate while"),
    (r" == ", lambda m: " != ", "== to !="),
    (r" != ", lambda m: " == ", "!= to =="),
    (r" < ", lambda m: " <= ", "< to <="),
    (r" > ", lambda m: " >= ", "> to >="),
    (r" <= ", lambda m: " < ", "<= to <"),
    (r" >= ", lambda m: " > ", ">= to >"),
    (r" && ", lambda m: " || ", "&& to ||"),
    (r" \|\| ", lambda m: " && ", "|| to &&"),
    (r" \+ 1\b", lambda m: "", "drop + 1"),
    (r" - 1\b", lambda m: "", "drop - 1"),
    (r"\+= 1\b", lambda m: "+= 2", "+= 1 to += 2"),
    (r"\btrue\b", lambda m: "false", "true to false"),
    (r"\bfalse\b", lambda m: "true", "false to true"),
    (r"RwLock::new\(0\)", lambda m: "RwLock::new(1)", "0 to 1"),
    (r"pop_front\(\)", lambda m: "pop_back()", "pop_front to pop_back"),
    (r"push_back\(", lambda m: "push_front(", "push_back to push_front"),
    (r"\.take\(\)", lambda m: ".clone()", "take to clone"),
    (r"sink_complete_force\(\)", lambda m: "finalize()", "force-complete to finalize"),
    (r"sink_complete\(&serial\)", lambda m: "sink_complete_force()", "complete to force-complete"),
    (r"notify_one", lambda m: "notify_all", "notify_one to notify_all"),
    (r"\.swap\((\w+), [^)]*\)", lambda m: ".load(std::sync::atomic::Ordering::SeqCst)", "swap to load"),
    (r"^(\s*)break;", lambda m: m.group(1) + "{}", "drop break"),
    (r"^(\s*)return;", lambda m: m.group(1) + "{}", "drop return"),
]

def mutants(repo, only, structural=False):
    for d, _, fs in sorted(os.walk(os.path.join(repo, "src"))):
        if "/tests" in d or "/web" in d:
            continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            if only and only not in p:
                continue
            if f in ("prelude.rs", "macros.rs", "tests.rs", "web.rs", "lib.rs"):
                continue
            for i, l in code(p):
                if l.strip().startswith("//") or l.strip().startswith("use "):
                    continue
                if structural:
                    continue
                for r, to, name in RULES:
                    for m in re.finditer(r, l):
                        n = l[:m.start()] + to(m) + l[m.end():]
                        if n != l:
                            yield p, i, l, n, name

def ind(l):
    return len(l) - len(l.lstrip())

def structure(repo, only):
    """edits of more than one line: (path, line, old, new source, name)"""
    for d, _, fs in sorted(os.walk(os.path.join(repo, "src"))):
        if "/tests" in d or "/web" in d:
            continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            if only and only not in p or f in ("prelude.rs", "macros.rs", "tests.rs", "web.rs", "lib.rs"):
                continue
            ls = open(p).read().split("\n")
            n = len(code(p))
            # statements of one or more lines at one indentation
            def stmt(i):
                """end (exclusive) of the statement that starts in line i"""
                if not ls[i].strip() or ls[i].strip().startswith(("//", "use ", "pub ", "fn ", "}", ")", "|", "#", "impl", "where", "mod ", ".")):
                    return None
                j = i
                while j < n:
                    if j > i and ls[j].strip() and ind(ls[j]) < ind(ls[i]):
                        return None
                    if ind(ls[j]) == ind(ls[i]) and (ls[j].rstrip().endswith(";") or (j > i and ls[j].strip() == "}") ):
                        return j + 1
                    j += 1
                return None
            for i in range(n):
                e = stmt(i)
                if e is None:
                    continue
                old = ls[i].strip()
                if e < n:
                    e2 = stmt(e)
                    if e2 and ind(ls[e]) == ind(ls[i]) and not (old.startswith("let ") and ls[e].strip().startswith("let ") and ("clone" in old or "new(" in old)):
                        yield p, i, old + " <-> " + ls[e].strip(), "\n".join(ls[:i] + ls[e:e2] + ls[i:e] + ls[e2:]), "swap statements"
                m = re.match(r"(\s*)let (mut )?(\w+) = (Arc::new\(.*)$", ls[i])
                if m:
                    # state of one subscription becomes state of the observable
                    j = i
                    while j >= 0 and not (re.search(r"create\(move \|", ls[j]) and ind(ls[j]) < ind(ls[i])):
                        j -= 1
                    if j >= 0:
                        x = m.group(3)
                        k = j
                        yield p, i, old, "\n".join(ls[:k] + ls[i:e] + ls[k:i] + ["%slet %s = %s.clone();" % (m.group(1), x, x)] + ls[e:]), "hoist per-subscription state"
                m = re.match(r"(\s*)let (mut )?(\w+) = (.+)\.(read|write|lock)\(\)\.unwrap\(\)\.(.*);$", ls[i])
                if m and e == i + 1:
                    yield p, i, old, "\n".join(ls[:i] + ["%slet mut held__ = %s.%s().unwrap(); let %s%s = held__.%s;" % (m.group(1), m.group(4), m.group(5), m.group(2) or "", m.group(3), m.group(6))] + ls[e:]), "guard held to the end of the block"
                # a block of its own is dissolved
                if re.match(r"\s*\{$", ls[i]) or re.match(r"\s*let .* = \{$", ls[i]):
                    pass
                m = re.match(r"(\s*)let mut (\w+) = (.+)\.(write|lock)\(\)\.unwrap\(\);$", ls[i])
                if m:
                    # every later use takes the lock again
                    j = i + 1
                    while j < n and (not ls[j].strip() or ind(ls[j]) >= ind(ls[i])):
                        j += 1
                    body = [re.sub(r"(?<![\w\.])\*?%s(?!\w)" % m.group(2), "(*%s.%s().unwrap())" % (m.group(3), m.group(4)), l) for l in ls[i + 1:j]]
                    yield p, i, old, "\n".join(ls[:i] + body + ls[j:]), "lock taken again for every use"

def main():
    a = sys.argv[1:]
    repo, out = a[0], a[1]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    if "--structure" in a:
        ms = list(structure(repo, opt("--only", "")))
    else:
        ms = list(mutants(repo, opt("--only", "")))
    random.Random(int(opt("--seed", "1"))).shuffle(ms)
    ms = ms[int(opt("--skip", "0")):][: int(opt("--max", "100000"))]
    print(len(ms), "mutants", flush=True)
    env = dict(os.environ, DST_REPO=repo, DST_SHRINK_MS="0")
    order = list(ALL)
    n = dict(caught=0, survived=0, unbuildable=0)
    for k, (p, i, old, new, name) in enumerate(ms):
        src = open(p).read()
        if "--structure" in a:
            full, new = new, ""
        else:
            lines = src.split("\n")
            lines[i] = new
            full = "\n".join(lines)
        open(p, "w").write(full)
        try:
            b = subprocess.run(["./check", "--build"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r = None
            if b.returncode:
                st = "unbuildable"
            else:
                st = "survived"
                for secs in ("1", "2"):
                    for c in order:
                        e = dict(env, DST_SECS=secs, VERIF_TIER="quick", VERIF_SEED="1")
                        x = subprocess.run([os.path.join(V, "build/target/release/dst"), "check", c, "--tier", "quick", "--seed", "1", "--dir", V], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                        if x.returncode == 1:
                            st, r = "caught", c
                            break
                    if r:
                        break
            if r:
                order.remove(r)
                order.insert(0, r)
            n[st] += 1
            rec = dict(k=k, file=os.path.relpath(p, repo), line=i + 1, rule=name, old=old.strip(), new=new.strip(), status=st, by=r)
            open(out, "a").write(json.dumps(rec) + "\n")
            if st == "survived":
                print(n, rec["file"], rec["line"], name, "|", rec["old"], flush=True)
        finally:
            open(p, "w").write(src)
    print(n)

main()
