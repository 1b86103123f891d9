#!/usr/bin/env python3
"""Mechanical mutants of the code under test, to find what the checks miss.

  tools/mutants.py [--seed S] [--shard I/N] [--num M] [--only SUBSTR] [--log FILE]

Every mutant is one small textual change (an operator, a constant, a dropped
statement, ...) in a scratch clone of /repo.  The checks anchored at the file
run in turn until one reports a violation.  Mutants that none reports are
listed as SURVIVED, to be read by hand: many change nothing observable.
Nothing of /repo or of this directory is changed; the checks run from a
scratch clone of this repository."""
import argparse, json, os, random, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = {
    "src/ldaplusplus/LDA.cpp": "C01 C02 C03 C04 C06",
    "include/ldaplusplus/LDA.hpp": "C01 C02 C03 C13",
    "src/ldaplusplus/Document.cpp": "C07 C15",
    "include/ldaplusplus/Document.hpp": "C07",
    "src/ldaplusplus/LDABuilder.cpp": "C13 C14",
    "include/ldaplusplus/LDABuilder.hpp": "C13 C14 C12",
    "src/ldaplusplus/e_step_utils.cpp": "C18 C22 C19",
    "include/ldaplusplus/NumpyFormat.hpp": "C08 C09",
    "include/ldaplusplus/utils.hpp": "C18 C14 C22 C17 C06",
    "src/ldaplusplus/em/AbstractEStep.cpp": "C19 C22 C18",
    "src/ldaplusplus/em/CorrespondenceSupervisedEStep.cpp": "C18 C19 C22",
    "src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp": "C17 C22",
    "src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp": "C16",
    "src/ldaplusplus/em/FastSupervisedEStep.cpp": "C18 C19 C22 C06",
    "src/ldaplusplus/em/FastSupervisedMStep.cpp": "C17 C20 C15",
    "src/ldaplusplus/em/MultinomialSupervisedEStep.cpp": "C18 C19 C22",
    "src/ldaplusplus/em/MultinomialSupervisedMStep.cpp": "C17 C22",
    "src/ldaplusplus/em/SemiSupervisedEStep.cpp": "C15",
    "src/ldaplusplus/em/SemiSupervisedMStep.cpp": "C15",
    "src/ldaplusplus/em/SupervisedEStep.cpp": "C18 C19 C22",
    "src/ldaplusplus/em/SupervisedMStep.cpp": "C17 C20",
    "src/ldaplusplus/em/UnsupervisedEStep.cpp": "C18 C19 C22",
    "src/ldaplusplus/em/UnsupervisedMStep.cpp": "C17",
    "src/ldaplusplus/events/Events.cpp": "C05 C04",
    "include/ldaplusplus/events/Events.hpp": "C05 C04",
    "include/ldaplusplus/events/ProgressEvents.hpp": "C04 C22 C20",
    "include/ldaplusplus/optimization/GradientDescent.hpp": "C20 C17",
    "src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp": "C21 C17",
    "src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp": "C21 C17",
    "src/applications/lda.cpp": "C12 C10 C11",
    "src/applications/slda.cpp": "C12 C10 C11",
    "src/applications/fslda.cpp": "C12 C10 C11",
    "src/applications/lda_io.cpp": "C10 C12 C11",
    "src/applications/utils.cpp": "C12",
    "src/applications/SnapshotEvery.cpp": "C11",
    "src/applications/EpochProgress.cpp": "C12",
    "src/applications/ExpectationProgress.cpp": "C12",
    "src/applications/MaximizationProgress.cpp": "C12",
}
SUBST = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" \+= ", " = "), (r" -= ", " += "),
         (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\brows\(\)", "cols()"), (r"\bcols\(\)", "rows()"), (r"\bcolwise\b", "rowwise"), (r"\browwise\b", "colwise"),
         (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])2(?![\w.])", "3"),
         (r"\+\+(?=\w)|(?<=\w)\+\+", "--"), (r"\bmax\(", "min("), (r"\bmaxCoeff\b", "minCoeff"),
         (r"if \((.*)\) \{", r"if (!(\1)) {"), (r"while \((.*)\) \{", r"while (false && (\1)) {"),
         (r"std::exp\(", "("), (r"std::log\(", "("), (r"\.exp\(\)", ""), (r"\.log\(\)", ""), (r"\bsize_t\b", "unsigned short"), (r"\bsize_t\b", "unsigned char"),
         (r"(?<!<)\bScalar (?=\w+ = )", "float "), (r"\bdouble\b", "int"), (r"notify_all", "notify_one"), (r"push_back", "push_front"), (r"front\(\)", "back()"),
         (r"\.sum\(\)", ".mean()"), (r"\.transpose\(\)", ""), (r"\.normalized\(\)", "")]


def mutants():
    out = []
    for f in FILES:
        src = open(os.path.join(REPO, f)).read().split("\n")
        comment = False
        for i, l in enumerate(src):
            s = l.strip()
            if "/*" in s:
                comment = True
            if comment or s.startswith("//") or s.startswith("*") or not s or s.startswith("#") or len(l) > 200:
                if "*/" in s:
                    comment = False
                continue
            if re.match(r"^(template|namespace|class|struct|using|typedef|public:|private:|protected:|[\w:]+<.*> >? \w+;$)", s):
                continue
            if f.endswith("utils.hpp") and "e_step" not in f and i < 370:
                continue
            if "/applications/" in f and ("R\"" in s or s.startswith("-") or "Usage" in s or s.startswith("--")):
                continue
            for a, b in SUBST:
                if a == " > " and re.search(r"<[^>]*> >", l):
                    continue
                for m in re.finditer(a, l):
                    out.append((f, i, l[:m.start()] + m.expand(b) + l[m.end():]))
            if s.endswith(";") and re.match(r"^[\w\]\[\.\->\(\)\*&:, ]+( [\+\-\*]?= .*|\(.*\));$", s) and not re.match(r"^(return|auto|const|std::\w+<|Scalar|int |size_t |delete|throw)", s):
                out.append((f, i, re.match(r"\s*", l).group(0) + ";"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--num", type=int, default=100000)
    ap.add_argument("--only", default="")
    ap.add_argument("--log", default="/tmp/mutants.log")
    a = ap.parse_args()
    k, n = map(int, a.shard.split("/"))
    ms = [m for m in mutants() if a.only in m[0]]
    # the same number from every file while they last
    rnd = random.Random(a.seed)
    by = {}
    for m in ms:
        by.setdefault(m[0], []).append(m)
    for f in by:
        rnd.shuffle(by[f])
    order = []
    while any(by.values()):
        for f in sorted(by):
            if by[f]:
                order.append(by[f].pop())
    order = order[:a.num][k::n]
    wt, vt = "/tmp/mutants-repo-%d" % k, "/tmp/mutants-verif-%d" % k
    for d, src in ((wt, REPO), (vt, ROOT)):
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", src, d])
    os.makedirs(vt + "/evidence", exist_ok=True)
    log = open(a.log, "a")
    for f, i, new in order:
        p = os.path.join(wt, f)
        old = open(p).read()
        L = old.split("\n")
        before = L[i]
        L[i] = new
        open(p, "w").write("\n".join(L))
        res, t0, seen = "SURVIVED", time.time(), []
        try:
            for c in FILES[f].split():
                try:
                    r = subprocess.run([vt + "/check", c], env=dict(os.environ, VERIF_REPO=wt), capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT " + c
                    break
                seen.append("%s=%d" % (c, r.returncode))
                if r.returncode == 1:
                    res = "KILLED " + c
                    break
                if r.returncode != 0:
                    res = "INVALID " + (r.stdout + r.stderr).strip()[-160:].replace("\n", " ")
                    break
        finally:
            open(p, "w").write(old)
        log.write("%s | %s:%d | %s | %s | %s %.0fs\n" % (res, f, i + 1, before.strip(), new.strip(), " ".join(seen), time.time() - t0))
        log.flush()
        subprocess.run("rm -rf %s/.work; find %s/.build -mmin +120 -type f -delete" % (vt, vt), shell=True)
    for d in (wt, vt):
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
