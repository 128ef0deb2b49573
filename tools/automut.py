#!/usr/bin/env python3
"""Development aid: systematic one-line mutants of the anchored files; reports those no check notices.
usage: automut.py OUT.jsonl N SEED FILE...   (FILE: substring of an anchored path; N mutants at most per file)
Environment: J workers, MUTBASE the repository to mutate."""
import json, os, random, re, shutil, subprocess, sys, tempfile, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUTBASE", "/repo")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
anch = {}
for p in props:
    for f in p["anchors"]["files"]:
        anch.setdefault(f, []).append(p["id"])

SKIP = re.compile(r"^\s*(//|\*|/\*|#|CONSOLE_BRIDGE|LOG_|assert|using|namespace|std::printf|printf|throw|TRAJOPT_IGNORE)|std::cout|PRINT_AND_THROW|static_assert|@brief|LOG_")
SUBS = [(r"(?<![<>=!\-+])<(?![<=])(?=\s)", "<="), (r"(?<=\s)>(?![>=])(?=\s)", ">="), (r"<=", "<"), (r"(?<![->])>=", ">"), (r"==", "!="), (r"!=", "=="),
        (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=\s)\*(?=\s)", "/"), (r"(?<=\s)/(?=\s)", "*"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="),
        (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak;", "{}"), (r"\bcontinue;", "{}"), (r"\bcontinue;", "break;"),
        (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])(\d+\.\d*)", r"(2 * \1 + 1)"),
        (r"\bif \((?!const)(.*)\)$", r"if (!(\1))"), (r"\bstd::max\b", "std::min"), (r"\bstd::min\b", "std::max"), (r"\bfmax\b", "fmin"), (r"\bfmin\b", "fmax"),
        (r"\bmaxCoeff\b", "minCoeff"), (r"\blower(?=\w*\b)", "upper"), (r"\bLower", "Upper"), (r"getLower\(\)", "getUpper()"), (r"getUpper\(\)", "getLower()"), (r"\+\+(?=\w)", ""), (r"(?<=\w)\+\+", ""),
        (r"\.back\(\)", ".front()"), (r"\.front\(\)", ".back()"), (r"std::abs\b|fabs\b", ""), (r"(\w+)\[(\w+)\]", r"\1[0]"), (r"\bpush_back\((?=.*\);$)", "size(); (void)("),
        (r"-(?=\w+[\[.(])", ""), (r"\brow\(\)", "col()"), (r"\bcol\(\)", "row()"), (r"\brows\(\)", "cols()"), (r"\bcols\(\)", "rows()")]


def mutants(path):
    s = open(os.path.join(BASE, path)).read().split("\n")
    out = []
    comment = False
    for i, l in enumerate(s):
        if "/*" in l:
            comment = True
        if comment or SKIP.search(l) or "CONSOLE_BRIDGE" in l or not l.strip():
            if "*/" in l:
                comment = False
            continue
        code = l.split("//")[0].rstrip()
        for pat, rep in SUBS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code:
                    out.append((path, i, l, new))
        if re.match(r"^\s+[\w\->.\[\]():*&, ]+(=[^=].*|\(.*\));$", code) and not re.match(r"^\s*(const|auto|return|using|Eigen::|std::|double|int|long|bool|size_t|struct|for|if|while|[\w:<>]+ \w+( =|;))", code):
            out.append((path, i, l, "  ;"))
    return out


def main():
    outp, n, seed, pats = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    rnd = random.Random(seed)
    q = queue.Queue()
    for f in sorted(anch):
        if any(p in f for p in pats):
            ms = mutants(f)
            rnd.shuffle(ms)
            for m in ms[:n]:
                q.put(m)
    print(q.qsize(), "mutants", flush=True)
    lock = threading.Lock()
    stat = {}

    def work():
        d = tempfile.mkdtemp(prefix="am.", dir="/tmp")
        subprocess.run("git -C %s archive HEAD | tar x -C %s" % (BASE, d), shell=True, check=True)
        v = os.path.join(d, "_v")
        os.makedirs(v + "/evidence")
        for x in ("bin", "lib", "specs", "harness", "known_findings.txt", "data"):
            if os.path.exists(os.path.join(V, x)):
                subprocess.run(["cp", "-a", os.path.join(V, x), v], check=True)
        env = dict(os.environ, REPO=d, VERIF_BUILD=os.path.join(d, "_b"), VERIF_SEED="1", VERIF_TIER="quick", VERIF_CACHE="/tmp/tlccache")
        while True:
            try:
                path, i, old, new = q.get_nowait()
            except queue.Empty:
                break
            p = os.path.join(d, path)
            s = open(p).read()
            ls = s.split("\n")
            ls[i] = new
            open(p, "w").write("\n".join(ls))
            verdict = "SURVIVED"
            why = ""
            for c in anch[path]:
                try:
                    r = subprocess.run(["python3", v + "/bin/check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, o = 9, "timeout"
                if rc == 1:
                    verdict = "caught"
                    why = c
                    break
                if rc != 0:
                    verdict = "nobuild" if "build of" in o else "toolerror"
                    why = c + " " + o[-300:] if verdict == "toolerror" else ""
                    break
            open(p, "w").write(s)
            with lock:
                stat[verdict] = stat.get(verdict, 0) + 1
                with open(outp, "a") as h:
                    h.write(json.dumps({"v": verdict, "why": why, "file": path, "line": i + 1, "old": old.strip(), "new": new.strip()}) + "\n")
        subprocess.run(["rm", "-rf", d])
    ts = [threading.Thread(target=work) for _ in range(int(os.environ.get("J", "3")))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(stat)


main()
