#!/usr/bin/env python3
"""Decides one property of /repo's working tree by generated-input search.

    check.py <id> [--tier quick|thorough] [--replay FILE]

Builds /verif/harness against /repo, runs TestC<nn> in several processes, as
an unprivileged user with its files in a scratch directory that is removed
afterwards, merges what they counted into /verif/evidence/<id>.json and turns
a failure into a replay file below /verif/replays/<id>/.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Anything else: the check itself failed and says nothing.
"""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
NOBODY = 65534
INFRA = 97
HANG = 98

# shards: processes; cases: per process, quick and thorough.
# tools: what the harness needs besides itself
#   cli    the pkger command, built from /repo
#   src    a copy of pkger's and here's sources, to build programs with
#   cache  a build cache with the packages such programs need
CHECKS = {}


def check(pid, quick, thorough, tools=(), race=False, shards=8, run=None, level="exploration",
          rule="", assumptions=()):
    CHECKS[pid] = dict(quick=quick, thorough=thorough, tools=tools, race=race, shards=shards,
                       level=level, rule=rule, assumptions=list(assumptions))


def load_checks():
    with open(os.path.join(VERIF, "tools", "checks.json")) as f:
        for pid, c in json.load(f).items():
            check(pid, **c)


class Infra(Exception):
    pass


def base_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("GO", "CGO", "VP_", "PKGER")) and k not in ("TMPDIR", "PWD", "OLDPWD")}
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    return env


def go_bin():
    """The go that /opt/vp's build uses, or the one on PATH."""
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; command -v go && go env GOROOT"],
                             capture_output=True, text=True, timeout=60).stdout.split()
        if len(out) == 2:
            g = os.path.join(out[1], "bin", "go")
            return g if os.path.exists(g) else out[0]
    except subprocess.SubprocessError:
        pass
    g = shutil.which("go")
    if not g:
        raise Infra("no go command")
    return g


def run_root(cmd, cwd, env, timeout=800):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("timed out: " + " ".join(cmd))
    if p.returncode != 0:
        raise Infra("failed: %s\n%s" % (" ".join(cmd), p.stdout[-8000:]))
    return p.stdout


def chown_all(path):
    for root, dirs, files in os.walk(path):
        os.lchown(root, NOBODY, NOBODY)
        for f in files:
            os.lchown(os.path.join(root, f), NOBODY, NOBODY)


def executable_tmp():
    """A scratch directory, in memory if programs can be run from there."""
    for base in ("/dev/shm", "/tmp"):
        try:
            d = tempfile.mkdtemp(prefix="vp-check-", dir=base)
        except OSError:
            continue
        p = os.path.join(d, "probe")
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize < 4 << 30:
                raise OSError("little space")
            with open(p, "w") as f:
                f.write("#!/bin/sh\nexit 0\n")
            os.chmod(p, 0o755)
            subprocess.run([p], check=True, timeout=20)
            os.unlink(p)
            return d
        except (OSError, subprocess.SubprocessError):
            shutil.rmtree(d, ignore_errors=True)
    raise Infra("no scratch directory")


def remove_scratch(d):
    if not re.match(r"^/(dev/shm|tmp)/vp-check-[^/]+$", d):
        return
    for root, dirs, _ in os.walk(d):
        for n in dirs:
            try:
                p = os.path.join(root, n)
                if not os.path.islink(p):
                    os.chmod(p, 0o755)
            except OSError:
                pass
    shutil.rmtree(d, ignore_errors=True)


def copy_sources(dst, go, env):
    """pkger's sources without tests, and a go.mod that needs only here."""
    pk = os.path.join(dst, "pkger")
    os.makedirs(pk)
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if not d.startswith(".") and
                         os.path.join(rel, d) not in ("./examples",) and d not in ("pkgtest", "costello"))
        for f in files:
            if f.endswith(".go") and not f.endswith("_test.go") and f != "pkged.go":
                os.makedirs(os.path.join(pk, rel), exist_ok=True)
                shutil.copyfile(os.path.join(root, f), os.path.join(pk, rel, f))
    here = run_root([go, "list", "-m", "-f", "{{.Dir}}", "github.com/gobuffalo/here"], os.path.join(VERIF, "harness"),
                    dict(env, GOFLAGS="-mod=mod")).strip().splitlines()[-1]
    shutil.copytree(here, os.path.join(dst, "here"))
    for root, dirs, files in os.walk(dst):
        os.chmod(root, 0o755)
        for f in files:
            os.chmod(os.path.join(root, f), 0o644)
    with open(os.path.join(pk, "go.mod"), "w") as f:
        f.write("module github.com/markbates/pkger\n\ngo 1.13\n\nrequire github.com/gobuffalo/here v0.6.0\n\n"
                "replace github.com/gobuffalo/here => ../here\n")
    with open(os.path.join(dst, "here", "go.mod"), "w") as f:
        f.write("module github.com/gobuffalo/here\n\ngo 1.13\n")
    for root, dirs, files in os.walk(os.path.join(dst, "here")):
        for f in files:
            if f.endswith("_test.go") or f == "go.sum":
                os.unlink(os.path.join(root, f))


def as_nobody():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def tail(path, n=60000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def clip(v, depth=0):
    if isinstance(v, str):
        return v if len(v) <= 160 else v[:150] + "...(%d)" % len(v)
    if isinstance(v, list):
        out = [clip(x, depth + 1) for x in v[:14]]
        if len(v) > 14:
            out.append("... %d in all" % len(v))
        return out
    if isinstance(v, dict):
        return {clip(k): clip(x, depth + 1) for k, x in list(v.items())[:20]}
    return v


def violation_in(log, code):
    """Why the run of one process is a violation, or None."""
    if code == HANG or "VPHANG:" in log:
        # in the code under test, or in a process that runs it
        stacks = log[max(0, log.rfind("VPHANG:")):]
        if "github.com/markbates/pkger" in stacks or "os/exec.(*Cmd)" in stacks:
            return "a case does not end"
        return None
    if "WARNING: DATA RACE" in log:
        return "data race"
    for s in ("fatal error: concurrent map", "fatal error: all goroutines are asleep", "fatal error: stack overflow",
              "fatal error: sync: ", "runtime: goroutine stack exceeds"):
        if s in log:
            return s
    if re.search(r"^panic: ", log, re.M) and "VPINFRA" not in log and re.search(r"/pkger/|markbates/pkger", log):
        return "panic"
    if "[rapid] failed" in log or "[rapid] panic" in log or "[rapid] flaky" in log or "VPFAIL:" in log:
        return "property fails"
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    load_checks()
    if a.id not in CHECKS:
        print("unknown property", a.id)
        return 2
    c = CHECKS[a.id]
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    hard = 840 if tier == "quick" else 4 * 3600
    soft = 420 if tier == "quick" else 3 * 3600

    scratch = executable_tmp()
    procs = []
    try:
        os.chmod(scratch, 0o755)
        go = go_bin()
        env = base_env()
        env["PATH"] = os.path.dirname(go) + ":" + env.get("PATH", "/usr/bin:/bin")
        env["GOPROXY"] = "off"
        env["GOTOOLCHAIN"] = "local"
        env["GONOSUMDB"] = "*"
        env["GOFLAGS"] = "-buildvcs=false"  # folders called .git are assets here

        bins = os.path.join(scratch, "bin")
        os.mkdir(bins)
        harness = os.path.join(bins, "harness.test")
        src = os.path.join(VERIF, "harness")
        if REPO != "/repo":
            src = os.path.join(scratch, "harness-src")
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            mod = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(os.path.join(src, "go.mod"), "w").write(mod)
        cmd = [go, "test", "-mod=mod", "-c", "-o", harness]
        if c["race"]:
            cmd.insert(2, "-race")
        run_root(cmd + ["."], src, env)

        shared = os.path.join(scratch, "shared")
        os.makedirs(os.path.join(shared, "gocache"))
        os.makedirs(os.path.join(shared, "modcache"))
        nenv = dict(env)
        nenv.update(HOME=shared, GOCACHE=os.path.join(shared, "gocache"), GOMODCACHE=os.path.join(shared, "modcache"),
                    GOPATH=os.path.join(shared, "gopath"), VP_SHARED=shared, VERIF_TIER=tier,
                    VP_GO=go, VP_BIN=harness)
        if "cli" in c["tools"]:
            cli = os.path.join(bins, "pkger")
            run_root([go, "build", "-o", cli, "./cmd/pkger"], REPO, env)
            nenv["VP_CLI"] = cli
        if "src" in c["tools"]:
            copy_sources(os.path.join(shared, "src"), go, env)
            nenv["VP_SRC"] = os.path.join(shared, "src")
        for root, _, files in os.walk(bins):
            os.chmod(root, 0o755)
            for f in files:
                os.chmod(os.path.join(root, f), 0o755)
        chown_all(shared)
        if "cache" in c["tools"]:
            warm(go, shared, nenv)

        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        shards = 1 if a.replay else c["shards"]
        cases = a.cases or c[tier]
        for i in range(shards):
            d = os.path.join(scratch, "w%d" % i)
            os.mkdir(d)
            os.chown(d, NOBODY, NOBODY)
            e = dict(nenv, VP_SCRATCH=d, TMPDIR=d, VP_STATS=os.path.join(d, "stats.json"), VP_SOFT=str(soft),
                     VP_CASE_LIMIT="150", VP_SHARD=str(i))
            cmd = [harness, "-test.run", "^Test%s$" % a.id, "-test.timeout", "0", "-rapid.shrinktime", "25s"]
            if c["race"]:
                e["GORACE"] = "log_path=%s suppress_equal_stacks=0 suppress_equal_addresses=0" % os.path.join(d, "race")
            if a.replay:
                f = os.path.join(d, "replay.fail")
                shutil.copyfile(a.replay, f)
                os.chmod(f, 0o644)
                cmd += ["-rapid.failfile", f]
            else:
                cmd += ["-rapid.checks", str(cases), "-rapid.seed", str((abs(seed) * 1000003 + i + 1) & 0x7fffffffffff)]
            log = open(os.path.join(scratch, "log%d" % i), "wb")
            procs.append((i, d, subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT,
                                                 stdin=subprocess.DEVNULL, preexec_fn=as_nobody,
                                                 start_new_session=True)))
        deadline = start + hard
        late = False
        for i, d, p in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                late = True
        for i, d, p in procs:
            kill(p)

        found, errors = None, []
        merged = dict(evaluations=0, skipped=0, distinct=set(), labels={}, samples=[])
        for i, d, p in procs:
            log = tail(os.path.join(scratch, "log%d" % i))
            why = violation_in(log, p.returncode)
            if why:
                found = found or (i, d, why, log)
            elif p.returncode != 0:
                errors.append("process %d ended with %s\n%s" % (i, p.returncode, log[-1500:]))
            try:
                s = json.load(open(os.path.join(d, "stats.json")))
            except (OSError, ValueError):
                if p.returncode == 0:
                    errors.append("process %d left no statistics\n%s" % (i, log[-2000:]))
                continue
            merged["evaluations"] += s["evaluations"]
            merged["skipped"] += s["skipped"]
            merged["distinct"].update(s["distinct"] or [])
            for k, v in (s["labels"] or {}).items():
                merged["labels"][k] = merged["labels"].get(k, 0) + v
            merged["samples"] += (s["samples"] or [])[:2]
        if late and not found:
            errors.append("timed out")

        if a.replay:
            print(tail(os.path.join(scratch, "log0")))
        if not a.replay:
            ev = {
                "property": a.id, "tier": tier, "seed": seed, "level": c["level"],
                "coverage": {
                    "evaluations": merged["evaluations"],
                    "distinct_nontrivial": len(merged["distinct"]),
                    "rule": c["rule"],
                    "samples": clip(merged["samples"][:8]) or ["none"],
                    "classes": dict(sorted(merged["labels"].items())),
                    "skipped_for_time": merged["skipped"],
                    "processes": shards,
                },
                "assumptions": c["assumptions"],
                "wall_s": round(time.time() - start, 1),
                "violations": 1 if found else 0,
            }
            tmp = os.path.join(VERIF, "evidence", a.id + ".json.tmp")
            with open(tmp, "w") as f:
                json.dump(ev, f, indent=1, ensure_ascii=False)
                f.write("\n")
            os.replace(tmp, os.path.join(VERIF, "evidence", a.id + ".json"))
        known(a.id)
        if found:
            i, d, why, log = found
            if a.replay:
                print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
                return 1
            out = os.path.join(VERIF, "replays", a.id)
            os.makedirs(out, exist_ok=True)
            name = "seed%d-%s-%d" % (seed, tier, i)
            replay = os.path.join(out, name + ".log")
            with open(replay, "w") as f:
                f.write("%s: %s\n\n%s" % (a.id, why, log))
            ff = os.path.join(d, "cwd", "testdata", "rapid")
            for root, _, files in os.walk(ff):
                for n in files:
                    if n.endswith(".fail"):
                        replay = os.path.join(out, name + ".fail")
                        shutil.copyfile(os.path.join(root, n), replay)
                        os.chmod(replay, 0o644)
            lines = [l for l in log.splitlines() if l.strip()]
            print("\n".join(x[:400] for x in lines[-40:]))
            print("%s: %s (see %s)" % (a.id, why, os.path.join(out, name + ".log")))
            print("VIOLATION property=%s replay=%s" % (a.id, replay))
            return 1
        if errors:
            print("\n".join(errors)[:8000])
            print("ERROR: the check of %s did not complete" % a.id)
            return 3
        if not a.replay and merged["evaluations"] == 0:
            print("ERROR: nothing was evaluated")
            return 3
        print("%s: held on %d cases, %d of them distinct and non-trivial, in %.0f s" %
              (a.id, merged["evaluations"], len(merged["distinct"]), time.time() - start))
        return 0
    except Infra as e:
        print("ERROR: %s" % e)
        return 3
    finally:
        for _, _, p in procs:
            kill(p)
        if not a.keep:
            remove_scratch(scratch)
        else:
            print("kept", scratch)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(10)
    except subprocess.TimeoutExpired:
        pass


def warm(go, shared, env):
    """Builds, once, what every generated program needs."""
    d = os.path.join(shared, "warm")
    os.mkdir(d)
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write("module warm\n\ngo 1.16\n\nrequire github.com/markbates/pkger v0.0.0\n"
                "require github.com/gobuffalo/here v0.6.0\n\n"
                "replace github.com/markbates/pkger => ../src/pkger\nreplace github.com/gobuffalo/here => ../src/here\n")
    with open(os.path.join(d, "main.go"), "w") as f:
        f.write('package main\n\nimport (\n\t_ "github.com/markbates/pkger"\n'
                '\t_ "github.com/markbates/pkger/pkging/mem"\n\t_ "encoding/json"\n\t_ "crypto/sha256"\n\t_ "net/http/httptest"\n'
                '\t_ "fmt"\n\t_ "io/ioutil"\n\t_ "sort"\n)\n\nfunc main() {}\n')
    chown_all(d)
    try:
        p = subprocess.run([go, "build", "-o", os.path.join(d, "warm"), "."], cwd=d, env=env, preexec_fn=as_nobody,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        raise Infra("warming the build cache timed out")
    if p.returncode != 0:
        raise Infra("warming the build cache failed:\n" + p.stdout[-4000:])


def known(pid):
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"^known: property=(\S+) (.*)$", line.strip())
                if m and m.group(1) == pid:
                    print("KNOWN-FINDING: property=%s %s" % (pid, m.group(2)))
    except OSError:
        pass


if __name__ == "__main__":
    sys.exit(main())
