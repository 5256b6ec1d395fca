#!/usr/bin/env python3
"""Confirms planted bugs described in a batch file and stores the confirmed ones.

usage: python3 tools/plant.py BATCH.py [ID ...]

The batch file defines BUGS, a list of dicts with the keys id, prop, edits (list of
(path below io/fastprintf, old text, new text)), demo (statements of a Java main),
and optionally members (Java members), imports, env, needs, breaks.
Each bug is applied in a private copy of /repo; it is stored under seeded/ only if it
compiles, all existing tests pass, and the demonstration fails with it and passes without.
With --check the property's check is run against the changed copy as well.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "146d27f"
JH = "/usr/lib/jvm/java-21-openjdk-amd64"
SRC = "src/main/java/io/fastprintf/"

DEMO_SH = """#!/bin/bash
# Run from the repository's root after a build. Exit 0: behaves as promised; 1: does not.
here=$(cd "$(dirname "$0")" && pwd)
jh=/usr/lib/jvm/java-21-openjdk-amd64
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
"$jh/bin/javac" --release 8 -nowarn -Xlint:none -encoding UTF-8 -cp target/classes -d "$out" "$here/Demo.java" || exit 2
%s"""
RUN = 'timeout 200 "$jh/bin/java" %s-cp "target/classes:$out" Demo\n'

DEMO_JAVA = """import io.fastprintf.*;
import io.fastprintf.seq.*;
import java.io.*;
import java.math.*;
import java.time.*;
import java.util.*;
%(imports)s
public class Demo {
  static int bad;

  static String f(String format, Object... args) {
    return FastPrintf.compile(format).format(args);
  }

  static void eq(Object want, Object got) {
    if (want == null ? got != null : !want.equals(got)) {
      System.out.println("expected <" + want + "> but got <" + got + ">");
      bad++;
    }
  }

  static String thrown(Runnable r) {
    try {
      r.run();
      return "nothing";
    } catch (Throwable t) {
      return t.getClass().getSimpleName();
    }
  }
%(members)s
  static void demo() throws Exception {
%(body)s
  }

  public static void main(String[] a) throws Exception {
    demo();
    System.exit(bad == 0 ? 0 : 1);
  }
}
"""


def sh(cmd, cwd=None, timeout=600, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def indent(text, n):
    return "\n".join((" " * n + l if l.strip() else "") for l in text.strip("\n").split("\n"))


def dedent_body(text, n):
    lines = text.strip("\n").split("\n")
    k = min([len(l) - len(l.lstrip()) for l in lines if l.strip()] or [0])
    return indent("\n".join(l[k:] for l in lines), n)


def fixed_lines(path):
    """Line numbers of PATH at HEAD that a fix commit added."""
    _, out = sh(["git", "-C", REPO, "blame", "-s", "-l", "%s..HEAD" % BASE, "--", path])
    res = set()
    for i, l in enumerate(out.split("\n"), 1):
        if l and not l.startswith("^"):
            res.add(i)
    return res


def touches_fix(diff):
    path, n, bad = None, 0, []
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            path = l[6:]
            fl = fixed_lines(path)
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1))
            continue
        if path is None or l.startswith(("---", "+++", "diff", "index")):
            continue
        if l.startswith("-"):
            if n in fl:
                bad.append("%s:%d" % (path, n))
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad


def confirm(bug, check):
    work = tempfile.mkdtemp(prefix="plant-%s-" % bug["id"], dir="/tmp")
    try:
        repo = os.path.join(work, "repo")
        sh(["cp", "-a", REPO, repo])
        for path, old, new in bug["edits"]:
            p = os.path.join(repo, SRC, path)
            text = open(p, encoding="utf-8").read()
            if text.count(old) != 1:
                return "REJECTED", "edit of %s matches %d times: %r" % (path, text.count(old), old[:60])
            open(p, "w", encoding="utf-8").write(text.replace(old, new))
        _, diff = sh(["git", "-C", repo, "diff"])
        bad = touches_fix(diff)
        if bad:
            return "REJECTED", "changes lines a fix added: %s" % bad
        d = os.path.join(work, "demo")
        os.mkdir(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        run = bug.get("run") or RUN % (bug["env"] + " " if bug.get("env") else "")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % run)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "Demo.java"), "w").write(DEMO_JAVA % {
            "imports": bug.get("imports", "").strip(),
            "members": ("\n" + dedent_body(bug["members"], 2) + "\n") if bug.get("members") else "",
            "body": dedent_body(bug["demo"], 4)})
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
        if rc != 0:
            return "REJECTED", "demo fails without the change:\n" + out[-1500:]
        sh(["rm", "-rf", os.path.join(repo, "target")])
        env = {"JAVA_HOME": JH, "PATH": JH + "/bin:" + os.environ["PATH"], "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC"}
        rc, out = sh("mvn -o -B -ntp -Djacoco.skip -Dgpg.skip -fae -Dmaven.test.failure.ignore=true test",
                     cwd=repo, env=env)
        if rc != 0:
            return "REJECTED", "does not build:\n" + out[-1500:]
        m = re.findall(r"Tests run: (\d+), Failures: (\d+), Errors: (\d+)", out)
        total = m[-1] if m else None
        if total is None or total[1] != "0" or total[2] != "0":
            fails = "\n".join(l for l in out.split("\n") if re.match(r"\[ERROR\]   ?\S+:\d", l))[:600]
            return "REJECTED", "tests: %s\n%s" % (total, fails)
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
        if rc == 0:
            return "REJECTED", "demo passes with the change"
        note = "rc=%d %s" % (rc, out.strip()[-200:])
        dest = os.path.join(HERE, "seeded", bug["id"])
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        shutil.copytree(d, dest)
        if check:
            e = {"VERIF_REPO": repo, "TMPDIR": work}
            ev = os.path.join(work, "verif")
            sh(["cp", "-a", HERE, ev])
            rc, out = sh(["bash", os.path.join(ev, "run.sh"), bug["prop"]], env=e, timeout=900)
            hit = "VIOLATION property=%s " % bug["prop"] in out
            return ("CAUGHT" if rc == 1 and hit else "MISSED rc=%d" % rc), note + "\n    " + out.strip()[-500:].replace("\n", "\n    ")
        return "CONFIRMED", note
    except subprocess.TimeoutExpired as x:
        return "TIMEOUT", str(x)[:300]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    ns = {}
    exec(compile(open(args[0]).read(), args[0], "exec"), ns)
    bugs = [b for b in ns["BUGS"] if len(args) == 1 or b["id"] in args[1:]]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        futs = {ex.submit(confirm, b, check): b for b in bugs}
        for fu in concurrent.futures.as_completed(futs):
            st, note = fu.result()
            print("%-10s %s (%s)\n    %s" % (st, futs[fu]["id"], futs[fu]["prop"], note), flush=True)


main()
