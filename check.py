#!/usr/bin/env python3
"""Decides one property of rowan by generated-input search.

    check.py ID [quick|thorough]      run the check (exit 0 held, 1 violated, 2 error of the check)
    check.py --replay FILE            run one recorded case again
    check.py --setup                  build everything the checks use

The tier and the seed default to $VERIF_TIER and $VERIF_SEED.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
WORK = os.path.join(HERE, "work")
HARNESS = os.path.join(HERE, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
SHARDS = 16            # fixed, so that a run explores the same cases on any machine
HANG_CPU_S = 120       # one case normally takes well under a millisecond (constructed ones: under 2 s)
CAP_EXIT = 77          # the harness's own memory cap

BUILDS = {
    # name: (toolchain, profile, triple, extra RUSTFLAGS, extra cargo args, run environment)
    "rel": (None, "rel", None, "", [], {}),
    "dbg": (None, "dbg", None, "", [], {}),
    "asan": ("+nightly", "dbg", TRIPLE, "-Zsanitizer=address --cfg rw_asan", [],
             {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"}),
    "tsan": ("+nightly", "dbg", TRIPLE, "-Zsanitizer=thread --cfg rw_asan --cfg rw_tsan", ["-Zbuild-std"],
             {"TSAN_OPTIONS": "abort_on_error=1:halt_on_error=1:report_thread_leaks=0"}),
    # Every basic block of rowan and of the generic code it uses counts a step.
    "cost": (None, "rel", TRIPLE, "--cfg rw_cost -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
             "-Cllvm-args=-sanitizer-coverage-trace-pc-guard", [], {}),
    "miri": ("+nightly", "dev", TRIPLE, "", [], {}),
}


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def source_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")):
        h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()


def dictionary():
    """Numbers and texts written as literals in rowan's sources, to steer the generators towards them."""
    numbers, texts = set(), set()
    for d, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(files):
            src = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            src = re.sub(r"(?m)//.*$", "", src)
            num = r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|size))?\b"
            val = lambda t: int(t.replace("_", ""), 0) if not re.fullmatch(r"0[0-9_]+", t) else int(t.replace("_", ""))
            for m in re.finditer(num, src):
                numbers.add(val(m.group(1)))
            for m in re.finditer(num + r"\s*(<<|\*)\s*" + num, src):
                a, b = val(m.group(1)), val(m.group(3))
                numbers.add(a << b if m.group(2) == "<<" and b < 32 else a * b)
            for m in re.finditer(r"\b([iu](?:8|16))::MAX\b", src):
                numbers.add({"u8": 255, "i8": 127, "u16": 65535, "i16": 32767}[m.group(1)])
            for m in re.finditer(r"b?'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'\n])'|\"((?:\\.|[^\"\\])*)\"", src):
                t = m.group(1) if m.group(1) is not None else m.group(2)
                t = re.sub(r"\\u\{([0-9a-fA-F]+)\}|\\x([0-9a-fA-F]{2})|\\(.)", lambda e: chr(int(e.group(1) or e.group(2), 16)) if e.group(1) or e.group(2)
                           else {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e.group(3), e.group(3)), t, flags=re.S)
                texts.add(t)
                if len(t) == 1:
                    numbers.add(ord(t))
    return json.dumps({"numbers": sorted(n for n in numbers if 3 < n < 1 << 32)[:400], "texts": sorted(t for t in texts if 0 < len(t) <= 24)[:400]})


_DICT = []


def dictionary_cached():
    if not _DICT:
        try:
            _DICT.append(dictionary())
        except (OSError, ValueError, OverflowError):
            _DICT.append("{}")
    return _DICT[0]


def build_env(name):
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS")}
    env["CARGO_NET_OFFLINE"] = "true"
    if BUILDS[name][3]:
        env["RUSTFLAGS"] = BUILDS[name][3]
    if name == "miri":
        # No aliasing model: rowan's thin pointers are outside the one Miri enforces by default.
        env["MIRIFLAGS"] = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"
        env["XDG_CACHE_HOME"] = os.path.join(TARGET, "miri", "cache")
    return env


def target_dir(name):
    return os.path.join(TARGET, "native" if name in ("rel", "dbg") else name)


def binary(name):
    tc, profile, triple, _, _, _ = BUILDS[name]
    return os.path.join(target_dir(name), *([triple] if triple else []), profile, "rwverif")


def build(name, want):
    """Builds one flavour of the harness against /repo's working tree."""
    tc, profile, triple, _, extra, _ = BUILDS[name]
    tdir = target_dir(name)
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, "stamp-" + name)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != want:
        # cargo goes by modification times; make sure that a changed tree is compiled again.
        for pat in ("*/.fingerprint/rowan-*", "*/*/.fingerprint/rowan-*", "*/.fingerprint/rwverif-*", "*/*/.fingerprint/rwverif-*"):
            for d in glob.glob(os.path.join(tdir, pat)):
                parts = d.split(os.sep)
                prof = parts[-3]
                if prof == profile or profile == "dev":
                    shutil.rmtree(d, ignore_errors=True)
    env = build_env(name)
    base = ["cargo"] + ([tc] if tc else [])
    if name == "miri":
        cmd = base + ["miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
                      "--target-dir", tdir, "--", "noop"]
    else:
        cmd = base + ["build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
                      "--profile", profile, "--target-dir", tdir] + (["--target", triple] if triple else []) + extra
    r = subprocess.run(cmd, env=env, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError(f"build {name} failed:\n{r.stdout[-4000:]}")
    with open(stamp, "w") as f:
        f.write(want)


def build_all(names):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = source_hash()
        # rel and dbg share a target directory whose lock cargo takes per profile.
        with cf.ThreadPoolExecutor(len(names)) as ex:
            for f in [ex.submit(build, n, want) for n in names]:
                f.result()


def command(build_name, args):
    if build_name == "miri":
        return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
                "--target-dir", target_dir("miri"), "--"] + args
    return [binary(build_name)] + args


def run_env(build_name, miri_seed=None):
    env = build_env(build_name) if build_name == "miri" else dict(os.environ)
    env.update(BUILDS[build_name][5])
    env["RW_DICT"] = dictionary_cached()
    if build_name == "miri" and miri_seed is not None:
        env["MIRIFLAGS"] += f" -Zmiri-seed={miri_seed}"
    return env


def cpu_of(pid):
    """CPU seconds of a process (and, for miri, of the children it waits for)."""
    total = 0.0
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        total = (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        pass
    return total


def run_watched(cmd, env, cur=None, cpu_limit=None, wall_limit=None):
    """Runs cmd; kills it when one case (as named in `cur`) burns more than HANG_CPU_S of CPU time.
    Returns (exit code or -signal or 'hang' or 'wall', output)."""
    out = open(os.path.join(WORK, f"out-{os.getpid()}-{time.monotonic_ns()}"), "w+b")
    p = subprocess.Popen(cmd, env=env, cwd=HERE, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
    why = None
    last_case, cpu_at_case, t0 = None, 0.0, time.time()
    delay = 0.02
    while True:
        try:
            p.wait(delay)
            break
        except subprocess.TimeoutExpired:
            delay = min(delay * 1.5, 1.0)
        cpu = cpu_of(p.pid)
        if cur:
            try:
                c = open(cur).read()
            except OSError:
                c = ""
            if c != last_case:
                last_case, cpu_at_case = c, cpu
            elif cpu - cpu_at_case > HANG_CPU_S:
                why = "hang"
        if cpu_limit and cpu > cpu_limit:
            why = "hang"
        if wall_limit and time.time() - t0 > wall_limit:
            why = "wall"
        if why:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            break
    out.seek(0)
    text = out.read().decode("utf-8", "replace")
    out.close()
    os.unlink(out.name)
    return (why or p.returncode), text


def run_shard(job):
    stem = os.path.join(WORK, f"{job['prop']}-{job['variant']}-{job['build']}-{job['shard']}")
    for ext in ("", ".digests", ".fail", ".cur"):
        if os.path.exists(stem + ext):
            os.unlink(stem + ext)
    args = ["run", "--prop", job["prop"], "--variant", job["variant"], "--seed", job["seed"], "--first", job["first"],
            "--step", job["step"], "--count", job["count"], "--deadline", job["deadline"], "--shrink-secs", 20,
            "--out", stem, "--cur", stem + ".cur"]
    t0 = time.time()
    rc, text = run_watched(command(job["build"], [str(a) for a in args]), run_env(job["build"], job.get("miri_seed")),
                           None if job["build"] == "miri" else stem + ".cur")
    res = {"job": job, "rc": rc, "text": text, "stem": stem, "wall": time.time() - t0, "stats": None}
    if rc in (0, 1) and os.path.exists(stem):
        res["stats"] = json.load(open(stem))
    elif rc == 0 or rc == 1:
        res["rc"] = "no-output"
    return res


def run_one(job, choices=None, case=None, trace=None, cpu=HANG_CPU_S, input=None):
    """Runs one case in its own process. Returns (kind, message): kind is held, violated, crash, hang, memory or error."""
    args = ["one", "--prop", job["prop"], "--variant", job["variant"]]
    tmp = None
    if choices is not None:
        tmp = os.path.join(WORK, f"choices-{os.getpid()}-{time.monotonic_ns()}")
        open(tmp, "w").write(" ".join(map(str, choices)))
        args += ["--choices", tmp]
    elif input is not None:
        args += ["--input", input]
    else:
        args += ["--seed", str(job["seed"]), "--case", str(case)]
    if trace:
        args += ["--trace", trace]
    rc, text = run_watched(command(job["build"], args), run_env(job["build"], job.get("miri_seed")), cpu_limit=cpu)
    if tmp:
        os.unlink(tmp)
    return classify(rc, text, job), text


def classify(rc, text, job):
    if rc == 0 and "held" in text:
        return "held"
    if rc == 1 and "violated:" in text:
        return "violated"
    if rc == "hang":
        return "hang"
    if rc == CAP_EXIT:
        return "memory"
    if isinstance(rc, int) and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGTRAP, signal.SIGFPE):
        return "crash"
    if "ERROR: AddressSanitizer" in text or "WARNING: ThreadSanitizer: data race" in text or "error: Undefined Behavior" in text:
        return "crash"
    return "error"


def shrink_crash(job, choices, kind, seconds):
    """Minimises a case that takes the process down, one process per attempt."""
    end = time.time() + seconds
    best = list(choices)

    def fails(c):
        return run_one(job, choices=c, cpu=20)[0] == kind

    size = max(1, len(best) // 2)
    while size >= 1 and time.time() < end:
        i = len(best)
        progress = False
        while i > 0 and time.time() < end:
            lo = max(0, i - size)
            cand = best[:lo] + best[i:]
            if fails(cand):
                best, progress = cand, True
            i = lo
        if not progress or size > 1:
            if size == 1:
                break
            size //= 2
    for i in range(len(best)):
        for nv in (0, best[i] // 2, best[i] - 1):
            if time.time() > end:
                return best
            if 0 <= nv < best[i]:
                cand = best[:i] + [nv] + best[i + 1:]
                if fails(cand):
                    best = cand
                    break
    return best


def tail(text, n=60):
    return "\n".join(text.strip().splitlines()[-n:])


def head_of_report(text):
    keys = ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "error: Undefined Behavior", "panicked at", "free()", "malloc", "corrupt")
    lines = text.splitlines()
    for i, l in enumerate(lines):
        if any(k in l for k in keys):
            return "\n".join(lines[i:i + 25])
    return tail(text, 12)


def investigate(res):
    """Turns a shard that did not end with 0 into a finding, or raises CheckError."""
    job, rc, text = res["job"], res["rc"], res["text"]
    st = res["stats"]
    if rc == 1 and st and st["failure"]:
        f = st["failure"]
        again, out = run_one(job, choices=f["choices"])
        return {"job": job, "kind": "violated", "message": f["message"], "first_message": f["first_message"], "choices": f["choices"],
                "case": f["case"], "case_text": f.get("case_text"), "reproduces_alone": again != "held"}
    kind = classify(rc, text, job)
    if kind == "error":
        raise CheckError(f"shard {job} ended with {rc}:\n{tail(text)}")
    cur = res["stem"] + ".cur"
    case = int(open(cur).read().strip() or "0") if os.path.exists(cur) else job["first"]
    saved = res["stem"] + ".fail"
    if os.path.exists(saved):
        # An ordinary failure was being shrunk when the process went down: report the unshrunk case.
        f = json.load(open(saved))
        return {"job": job, "kind": "violated", "message": f["message"], "first_message": f["message"], "choices": f["choices"],
                "case": f["case"], "case_text": None, "reproduces_alone": run_one(job, choices=f["choices"])[0] != "held"}
    trace = res["stem"] + ".trace"
    # A guided run leaves the input of the case it was at.
    again, out = run_one(job, case=case, trace=trace, input=cur + ".input" if job["variant"] == "guided" else None)
    if again == "held" and kind in ("hang", "memory"):
        raise CheckError(f"shard {job}: {kind} at case {case}, which holds when run alone:\n{tail(text)}")
    if again == "error":
        raise CheckError(f"shard {job}: {kind} at case {case}; alone it ended with an error:\n{tail(out)}")
    choices = [int(x) for x in open(trace).read().split()] if os.path.exists(trace) else []
    message = {"crash": "the process died: ", "hang": f"one case used more than {HANG_CPU_S} s of CPU time", "memory": "one case used more than 3 GiB of memory", "violated": "", "held": "the process died: "}[again]
    if again in ("crash", "violated"):
        message += head_of_report(out)
    elif again == "held":
        message += head_of_report(text)
    if again == "crash" and choices:
        choices = shrink_crash(job, choices, "crash", 60)
        _, out = run_one(job, choices=choices)
        message = "the process died: " + head_of_report(out)
    return {"job": job, "kind": kind, "message": message, "first_message": message, "choices": choices, "case": case, "case_text": None,
            "reproduces_alone": again != "held"}


def jobs_for(prop, tier, seed):
    """The fixed work of one tier."""
    reg = {p["id"]: p for p in json.loads(subprocess.run([binary("rel"), "list"], stdout=subprocess.PIPE, check=True, text=True).stdout)}
    if prop not in reg:
        raise CheckError(f"no check for {prop}")
    jobs = []
    deadline = 420 if tier == "quick" else 6 * 3600
    for v in reg[prop]["variants"]:
        total = v[tier]
        for b, share in v["builds"]:
            n = max(1, total * share // 100) if total else 0
            if n == 0:
                continue
            # Every build explores cases of its own: the first case numbers are far apart.
            base = {"rel": 0, "dbg": 1 << 32, "asan": 2 << 32, "tsan": 3 << 32, "miri": 4 << 32, "cost": 5 << 32}[b]
            shards = min(8 if b == "miri" else SHARDS, n)
            for k in range(shards):
                count = n // shards + (1 if k < n % shards else 0)
                jobs.append({"prop": prop, "variant": v["name"], "build": b, "shard": k, "seed": seed, "first": base + k, "step": shards,
                             "count": count, "deadline": deadline, **({"miri_seed": (seed * 1000003 + k) % (1 << 31)} if b == "miri" else {})})
    # Long jobs first.
    jobs.sort(key=lambda j: {"miri": 0, "tsan": 1, "asan": 2, "cost": 3, "dbg": 3, "rel": 4}[j["build"]])
    return jobs


def known_findings(prop):
    """Lines 'finding: property=<id> signature=<text> :: <what fails>'; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: ") and f"property={prop} " in l:
                sig, what = l.split("signature=", 1)[1].split(" :: ", 1)
                out.append((sig, what))
    return out


BUILDS_OF = {"C25": ["rel", "dbg", "asan"], "C26": ["rel", "dbg", "tsan", "miri"], "C32": ["rel", "dbg", "asan"], "C35": ["rel", "cost"], "C37": ["rel", "dbg", "asan"]}


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    build_all(BUILDS_OF.get(prop, ["rel", "dbg"]) + (["cost"] if tier == "thorough" and prop not in ("C26", "C31", "C35", "C36") else []))
    t_build = time.time() - t0
    jobs = jobs_for(prop, tier, seed)
    results, findings = [], []
    stop = False
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {ex.submit(run_shard, j): j for j in jobs}
        for f in cf.as_completed(futs):
            if f.cancelled():
                continue
            r = f.result()
            results.append(r)
            if r["rc"] != 0 and not stop:
                stop = True
                for g in futs:
                    g.cancel()
    bad = sorted((r for r in results if r["rc"] != 0), key=lambda r: (r["job"]["variant"], r["job"]["build"], r["job"]["shard"]))
    errors = []
    for r in bad[:4]:
        try:
            findings.append(investigate(r))
        except CheckError as e:
            errors.append(str(e))
    if errors and not findings:
        raise CheckError("\n".join(errors))

    known = known_findings(prop)
    fresh = []
    for f in findings:
        if not any(sig in f["message"] for sig, _ in known):
            fresh.append(f)
    for sig, what in known:
        say(f"KNOWN-FINDING: property={prop} {what}")

    # Evidence, measured on this run.
    evaluations = nontrivial = queries = 0
    labels, digests, samples, per = {}, {}, [], {}
    for r in sorted(results, key=lambda r: (r["job"]["build"], r["job"]["variant"], r["job"]["shard"])):
        st = r["stats"]
        if not st:
            continue
        evaluations += st["cases"]
        nontrivial += st["nontrivial"]
        queries += st["queries"]
        for k, v in st["labels"].items():
            labels[k] = labels.get(k, 0) + v
        digests.setdefault(r["job"]["variant"], []).append(r["stem"] + ".digests")
        if len(samples) < 6:
            samples += [f"[{r['job']['variant']}/{r['job']['build']}] {s}" for s in st["samples"][:2]]
        slot = per.setdefault(f"{r['job']['variant']}/{r['job']['build']}", {"cases": 0, "nontrivial": 0, "asked": 0})
        slot["cases"] += st["cases"]
        slot["nontrivial"] += st["nontrivial"]
        slot["asked"] += st["asked"]
        if st.get("edges"):
            slot["edges_seen_per_shard"] = max(slot.get("edges_seen_per_shard", 0), st["edges"])
            slot["inputs_kept_for_new_edges"] = slot.get("inputs_kept_for_new_edges", 0) + st["corpus"]
    distinct = 0
    for files in digests.values():
        distinct += int(subprocess.run([binary("rel"), "distinct"] + files, stdout=subprocess.PIPE, check=True, text=True).stdout)
        for f in files:
            os.unlink(f)
    meta = json.load(open(os.path.join(HERE, "tools", "checks.json")))[prop]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": meta["rule"], "samples": samples,
            "oracle_comparisons_counted_inside_cases": queries, "nontrivial_before_removing_duplicates": nontrivial,
            "cases_showing_feature": dict(sorted(labels.items())), "by_variant_and_build": per, "exhaustive": False,
            "build_s": round(t_build, 1), "finished_all_planned_cases": all(s["cases"] == s["asked"] for s in per.values()),
        },
        "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    if errors:
        for e in errors:
            say("also:", e)
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        f = fresh[0]
        path = os.path.join(HERE, "replays", f"{prop}-{f['job']['variant']}-{f['job']['build']}-{f['case']}.json")
        with open(path, "w") as o:
            json.dump({"property": prop, "variant": f["job"]["variant"], "build": f["job"]["build"], "seed": seed, "case": f["case"],
                       "miri_seed": f["job"].get("miri_seed"), "choices": f["choices"], "kind": f["kind"], "message": f["message"],
                       "first_message": f["first_message"], "case_text": f["case_text"], "reproduces_alone": f["reproduces_alone"]}, o, indent=1)
        say(f"{prop}: {f['message']}")
        if f["case_text"]:
            say(f"case: {f['case_text']}")
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    say(f"{prop}: held on {evaluations} cases ({distinct} distinct non-trivial), {queries} comparisons, "
        f"build {t_build:.0f} s, total {time.time() - t0:.0f} s")
    return 0


def replay(path):
    r = json.load(open(path))
    os.makedirs(WORK, exist_ok=True)
    build_all([r["build"]])
    job = {"prop": r["property"], "variant": r["variant"], "build": r["build"], "seed": r["seed"], "miri_seed": r.get("miri_seed")}
    kind, out = run_one(job, choices=r["choices"]) if r["choices"] else run_one(job, case=r["case"])
    say(out.strip())
    say(kind)
    return 0 if kind == "held" else 1


def main():
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if sys.argv[1] == "--setup":
            build_all(["rel", "dbg"])
            build_all(["cost"])
            build_all(["asan"])
            build_all(["tsan"])
            build_all(["miri"])
            return 0
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(sys.argv[1], tier)
    except CheckError as e:
        say("ERROR of the check:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
