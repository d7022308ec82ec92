#!/usr/bin/env python3
"""Build the workers from /repo's tree, run them, judge, write evidence. See DESIGN.md."""
import fcntl, glob, hashlib, json, os, queue, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
from plan import PLAN, TSAN, ASAN, MIRI, RULE25  # noqa: E402

BUILD = os.path.join(VERIF, ".build")
T0 = time.time()
FATAL = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def say(*a):
    print(*a, flush=True)


def give_up(code, msg):
    say(("INCONCLUSIVE: " if code == 3 else "ERROR: ") + msg)
    sys.exit(code)


# ---------------------------------------------------------------- building

def base_env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1", RUSTUP_TOOLCHAIN="stable")
    return e


def sources():
    out = []
    for top in (os.path.join(REPO, "bsp-server"), os.path.join(REPO, "bsp-types"), os.path.join(VERIF, "harness")):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml", ".lock"))]
    return out


def stamp(kind):
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(kind.encode())
    return h.hexdigest()


def forget(target):
    """Make cargo rebuild what comes from paths, whatever the modification times say."""
    for d in glob.glob(os.path.join(target, "**", ".fingerprint", "bsp*"), recursive=True):
        shutil.rmtree(d, ignore_errors=True)


def build(kind):
    """kind: plain, thread, address, miri. Returns the command prefix of a worker."""
    e = base_env()
    t = os.path.join(BUILD, "target" if kind == "plain" else kind)
    os.makedirs(t, exist_ok=True)
    e["CARGO_TARGET_DIR"] = t
    harness = os.path.join(VERIF, "harness")
    cmd = ["cargo", "build", "--offline", "--quiet"]
    exe = os.path.join(t, "debug", "bspmon")
    if kind == "plain":
        if not os.path.isdir(os.path.join(t, "debug", "deps")):
            # dependencies that the repository's own build has compiled already
            src = os.path.join(REPO, "target", "debug")
            for d in ("deps", "build", ".fingerprint"):
                if os.path.isdir(os.path.join(src, d)):
                    subprocess.run(["cp", "-a", os.path.join(src, d), os.path.join(t, "debug") + "/"], stderr=subprocess.DEVNULL) \
                        if os.path.isdir(os.path.join(t, "debug")) or not os.makedirs(os.path.join(t, "debug")) else None
            forget(t)
    elif kind == "miri":
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        cmd = ["cargo", "miri", "run", "--offline", "--quiet", "--features", "plain-alloc", "--", "nothing"]
    else:
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["RUSTFLAGS"] = f"-Zsanitizer={kind}"
        cmd += ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--features", "plain-alloc"]
        exe = os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "bspmon")
    want = stamp(kind)
    sf = os.path.join(t, ".stamp")
    have = open(sf).read() if os.path.exists(sf) else ""
    if have != want:
        forget(t)
        if os.path.exists(sf):
            os.remove(sf)
    if kind == "miri":
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    r = subprocess.run(cmd, cwd=harness, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if kind == "miri":
        # "nothing" makes the worker print its usage and exit with 2
        if "usage: bspmon" not in r.stdout:
            return None, r.stdout
    elif r.returncode != 0:
        return None, r.stdout
    with open(sf, "w") as f:
        f.write(want)
    return (exe, e), ""


def dictionary():
    """String and integer literals of the library: they steer generation, never the verdict."""
    strs, ints = set(), set()
    for f in sources():
        if not f.startswith(REPO) or not f.endswith(".rs"):
            continue
        text = open(f, encoding="utf-8", errors="replace").read()
        for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,80})"', text):
            s = m.group(1)
            try:
                s = json.loads('"' + s + '"')
            except ValueError:
                continue
            if "{" not in s and len(s) <= 60:
                strs.add(s)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|size))?\b", text):
            try:
                n = int(m.group(1).replace("_", ""), 0)
            except ValueError:
                continue
            if n < 1 << 62:
                ints.update((n, n + 1, n - 1))
    return {"strs": sorted(strs), "ints": sorted(ints)}


# ---------------------------------------------------------------- running

class Job:
    """A series of cases run by one or more worker processes in a row."""

    def __init__(self, cmd, env, prop, seed, tier, first, step, count, secs, silence, tag=""):
        self.cmd, self.env, self.prop, self.seed, self.tier = cmd, env, prop, seed, tier
        self.next, self.step, self.left, self.secs, self.silence, self.tag = first, step, count, secs, silence, tag
        self.viol, self.known, self.stalls, self.crashes, self.harness, self.utf8 = [], [], [], [], [], []
        self.evals = self.events = self.done = 0
        self.sigs, self.samples, self.counts = set(), [], {}
        self.lost = 0
        self.proc = None
        self.stderr = b""
        self.confirm = None
        self.confirmed = None

    def run(self, stop):
        end = time.time() + self.secs
        restarts = 0
        while self.left > 0 and not stop.is_set() and time.time() < end:
            before = self.next
            clean = self.once(stop, max(1, int(end - time.time())))
            if clean:
                return
            restarts += 1
            if self.stalls and self.confirm and not stop.is_set():
                # once per check: the first stall is tried again at once, while the other workers go on
                self.confirmed = self.confirm(self.stalls[-1])
                if self.confirmed:
                    return
            if restarts > 4 or len(self.stalls) >= 2:
                return
            if self.next == before:
                self.next += self.step
                self.left -= 1

    def once(self, stop, secs):
        args = self.cmd + ["run", "--prop", self.prop, "--seed", str(self.seed), "--tier", self.tier, "--from", str(self.next),
                           "--step", str(self.step), "--count", str(self.left), "--secs", str(secs)]
        p = subprocess.Popen(args, env=self.env, cwd=os.path.join(VERIF, "harness"), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True)
        self.proc = p
        q = queue.Queue()

        def pump():
            for line in p.stdout:
                q.put(line)
            q.put(None)

        def drain():
            for line in p.stderr:
                if len(self.stderr) < 200_000:
                    self.stderr += line

        a = threading.Thread(target=pump, daemon=True)
        b = threading.Thread(target=drain, daemon=True)
        a.start()
        b.start()
        case, reported, clean, last, stalled = None, False, False, time.time(), False
        while True:
            try:
                line = q.get(timeout=0.5)
            except queue.Empty:
                if stop.is_set():
                    kill(p)
                    break
                if time.time() - last > self.silence:
                    stalled = True
                    kill(p)
                    break
                continue
            if line is None:
                break
            last = time.time()
            tag, _, rest = line.decode("utf-8", "replace").partition(" ")
            try:
                v = json.loads(rest)
            except ValueError:
                continue
            if tag == "S":
                if case is not None:
                    self.done += 1
                case = v
                if v != self.next:
                    self.left -= (v - self.next) // self.step
                    self.next = v
            elif tag == "V":
                self.viol.append(v)
            elif tag == "U":
                self.utf8.append(v)
            elif tag == "K":
                self.known.append(v)
            elif tag == "T":
                self.stalls.append(v)
            elif tag == "H":
                self.harness.append(v)
            elif tag == "R":
                reported = True
                self.evals += v["evals"]
                self.events += v["events"]
                self.sigs.update(v["sigs"])
                self.samples += v["samples"]
                for k, n in v["counts"].items():
                    self.counts[k] = self.counts.get(k, 0) + n
            elif tag == "N":
                clean = True
                self.left = 0
        try:
            rc = p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            kill(p)
            rc = p.wait()
        b.join(timeout=5)
        kill(p)
        self.rc = rc
        if clean:
            self.done += case is not None
            return True
        if stop.is_set():
            return True
        if stalled:
            self.stalls.append({"case": case if case is not None else self.next, "msg": f"the worker made no progress for {self.silence} s"})
        elif rc == 70:
            pass
        else:
            self.crashes.append({"case": case, "rc": rc, "stderr": self.stderr[-1500:].decode("utf-8", "replace")})
        if not reported:
            self.lost += 1
        # go on behind the case that ended the worker
        if case is not None:
            self.next = case + self.step
            self.left -= 1
        return False


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run_jobs(jobs, stop, parallel, stalls_too=False):
    sem = threading.Semaphore(parallel)

    def one(j):
        with sem:
            if not stop.is_set():
                j.run(stop)
                if stop_early(j) or (stalls_too and j.stalls):
                    stop.set()

    ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def stop_early(j):
    return bool(j.viol or j.confirmed)


# ---------------------------------------------------------------- verdict

def known_keys(prop):
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f, encoding="utf-8"):
            m = re.match(r'finding: property=(\w+) key="([^"]+)"\s*(.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def write_evidence(prop, tier, seed, coverage, violations, extra=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    d = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
         "wall_s": round(time.time() - T0, 1), "violations": violations}
    d.update(extra or {})
    tmp = os.path.join(VERIF, "evidence", f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def replay_file(prop, seed, tier, what, tool="plain"):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{what.get('case')}.json")
    d = {"property": prop, "seed": seed, "tier": tier, "tool": tool, "case": what.get("case"), "message": what.get("msg"), "detail": what.get("detail"),
         "rerun": f"/verif/check.sh --replay {path}"}
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return path


def merge(jobs):
    sigs, samples, counts = set(), [], {}
    for j in jobs:
        sigs |= {(j.tag, s) for s in j.sigs}
        samples += j.samples[-2:]
        for k, n in j.counts.items():
            counts[k] = counts.get(k, 0) + n
    return sigs, samples[:12], dict(sorted(counts.items()))


def plain_check(prop, tier, seed):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ok, log = build("plain")
        if not ok:
            say(log[-4000:])
            give_up(2, "the workers do not build")
    exe, env = ok
    env["BSPMON_DICT"] = os.path.join(BUILD, f"dict.{os.getpid()}.json")
    with open(env["BSPMON_DICT"], "w") as f:
        json.dump(dictionary(), f)
    build_s = time.time() - T0
    try:
        return judge(prop, tier, seed, exe, env, build_s)
    finally:
        os.remove(env["BSPMON_DICT"])


def judge(prop, tier, seed, exe, env, build_s):
    quick, secs, rule = PLAN[prop]
    w = 8
    if tier == "quick":
        cases, limit = quick, 240
    else:
        cases, limit = quick * 1000, secs
    # sequential idle cases of the handshakes need patience
    silence = 250 if tier == "quick" else 500
    stop = threading.Event()
    jobs = [Job([exe], env, prop, seed, tier, i, w, (cases - i + w - 1) // w, limit, silence) for i in range(w)]
    first = threading.Lock()

    def confirm(s):
        if not first.acquire(blocking=False):
            return None
        return again(exe, env, prop, seed, tier, s, 1, 40)

    for j in jobs:
        j.confirm = confirm
    run_jobs(jobs, stop, w)

    viol = [v for j in jobs for v in j.viol] or [j.confirmed for j in jobs if j.confirmed]
    inconclusive = []
    # a dead worker
    for j in jobs:
        for c in j.crashes:
            sig = -c["rc"] if c["rc"] < 0 else 0
            if sig in FATAL:
                viol.append({"case": c["case"], "msg": f"the process died of {signal.Signals(sig).name}", "detail": c["stderr"]})
            elif sig == signal.SIGKILL:
                # out of memory, or ended from outside: decided by running the case alone
                lone = alone(exe, env, prop, seed, tier, c["case"], 1, 120)
                inconclusive.append({"case": c["case"], "msg": f"the worker was killed (alone: rc {lone[0].rc})"})
            else:
                give_up(2, f"a worker ended with {c['rc']} in case {c['case']}: {c['stderr'][-800:]}")
    known_stalls = [s for j in jobs for s in j.stalls]
    if known_stalls and not viol:
        v, i = confirm_stalls(exe, env, prop, seed, tier, known_stalls)
        viol += v
        inconclusive += i
    herr = [h for j in jobs for h in j.harness]

    # findings
    listed = known_keys(prop)
    seen = {}
    for j in jobs:
        for k in j.known:
            seen.setdefault(k["key"], k)
    for key, k in sorted(seen.items()):
        if key in listed:
            say(f"KNOWN-FINDING: property={prop} {key}: {listed[key]}")
        else:
            viol.append({"case": k["case"], "msg": f"{key}: {k['msg']}", "detail": k["detail"]})

    evals, events = sum(j.evals for j in jobs), sum(j.events for j in jobs)
    sigs, samples, counts = merge(jobs)
    done = sum(j.done for j in jobs)
    cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": rule, "samples": samples, "cases": done, "events_observed": events,
           "counts": counts, "workers": w, "build_s": round(build_s, 1), "inconclusive_cases": inconclusive,
           "known_findings_seen": sorted(k for k in seen if k in listed)}
    write_evidence(prop, tier, seed, cov, len(viol))
    if viol:
        v = viol[0]
        path = replay_file(prop, seed, tier, v)
        for x in viol[:5]:
            say(f"  case {x.get('case')}: {str(x.get('msg'))[:600]}")
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    if herr:
        give_up(2, f"harness error in case {herr[0]['case']}: {herr[0]['msg']}")
    if len(inconclusive) > 2 or done < (quick * 0.6 if tier == "quick" else 8) or evals == 0 or events == 0 or len(sigs) < 2:
        give_up(3, f"too little observed: {done} cases, {evals} evaluations, {events} events; {inconclusive[:3]}")
    say(f"{prop}: held on {evals} evaluations ({done} cases, {events} events observed, {len(sigs)} distinct), seed {seed}, {tier}, {time.time() - T0:.1f} s")
    for i in inconclusive:
        say(f"  not judged: case {i['case']}: {i['msg']}")
    return 0


def alone(exe, env, prop, seed, tier, case, copies, wait):
    e = dict(env)
    e["BSPMON_WAIT"] = str(wait)
    stop = threading.Event()
    jobs = [Job([exe], e, prop, seed, tier, case, 1, 1, 200, 170) for _ in range(copies)]
    run_jobs(jobs, stop, 8, stalls_too=True)
    return jobs


def again(exe, env, prop, seed, tier, s, copies, wait):
    """A case that made no progress, run again in fresh processes with more patience: a violation or None."""
    jobs = alone(exe, env, prop, seed, tier, s["case"], copies, wait)
    bad = [x for j in jobs for x in j.stalls] or [x for j in jobs for x in j.viol]
    if not bad:
        return None
    return {"case": s["case"], "msg": f"no progress, and again when run alone: {s['msg']} / {bad[0]['msg']}", "detail": bad[0].get("detail")}


def confirm_stalls(exe, env, prop, seed, tier, stalls):
    """Stalls that did not show again at once, in more copies (what does not finish may depend on timing)."""
    inconclusive = []
    for s in sorted(stalls, key=lambda s: s["case"])[:2]:
        v = None
        if time.time() - T0 < 520:
            v = again(exe, env, prop, seed, tier, s, 8, 30)
        if v:
            return [v], inconclusive
        inconclusive.append({"case": s["case"], "msg": f"{s['msg']} (not repeated)"})
    return [], inconclusive


# ---------------------------------------------------------------- C25

def reports(pattern, words):
    out = []
    for f in sorted(glob.glob(pattern + "*")):
        text = open(f, errors="replace").read()
        if any(w in text for w in words):
            out.append((f, text))
    return out


def sanitizer_check(tier, seed):
    os.makedirs(BUILD, exist_ok=True)
    logs = os.path.join(BUILD, f"san.{os.getpid()}")
    os.makedirs(logs)
    built = {}
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)

        def one(k):
            built[k] = build(k)
        ts = [threading.Thread(target=one, args=(k,)) for k in ("thread", "address", "miri", "plain")]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    for k, (ok, log) in built.items():
        if not ok:
            say(log[-3000:])
            give_up(2, f"the {k} build failed")
    build_s = time.time() - T0
    dic = os.path.join(logs, "dict.json")
    with open(dic, "w") as f:
        json.dump(dictionary(), f)
    try:
        return judge25(tier, seed, {k: v[0] for k, v in built.items()}, logs, dic, build_s)
    finally:
        shutil.rmtree(logs, ignore_errors=True)


def judge25(tier, seed, built, logs, dic, build_s):
    q = tier == "quick"
    w = 8
    jobs = []

    def add(tool, cmd, env, items):
        for prop, nq, nt, first in items:
            n = nq if q else nt
            step = min(w, n)
            for i in range(step):
                e = dict(env, BSPMON_DICT=dic, BSPMON_WAIT="60", BSPMON_TOOL=tool)
                if tool == "miri":
                    e["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-seed={seed * 1000 + i}"
                jobs.append(Job(cmd, e, prop, seed, tier, first + i, step, (n - i + step - 1) // step, 200 if q else 240, 200, tool))

    exe, e = built["thread"]
    add("thread", [exe], dict(e, TSAN_OPTIONS=f"halt_on_error=0:exitcode=0:report_thread_leaks=0:log_path={logs}/tsan"), TSAN)
    exe, e = built["address"]
    add("address", [exe], dict(e, ASAN_OPTIONS=f"halt_on_error=1:exitcode=98:detect_leaks=1:allocator_may_return_null=1:log_path={logs}/asan",
                               LSAN_OPTIONS="exitcode=97"), ASAN)
    _, e = built["miri"]
    e = dict(e)
    add("miri", ["cargo", "miri", "run", "--offline", "--quiet", "--features", "plain-alloc", "--"], e, MIRI)
    exe, e = built["plain"]
    add("plain", [exe], e, [("C25", 160, 4000, 0), ("C04", 80, 800, 0)])
    # Miri takes longest, so it goes first
    jobs.sort(key=lambda j: {"miri": 0, "thread": 1, "address": 2, "plain": 3}[j.tag])
    stop = threading.Event()
    sem = threading.Semaphore(w)
    notes = []
    viol = []

    def one(j):
        with sem:
            if stop.is_set() or time.time() - T0 > (500 if q else 780):
                return
            j.run(stop)

    ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for f, text in reports(f"{logs}/tsan", ["WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer"]):
        viol.append({"case": 0, "msg": "ThreadSanitizer: " + headline(text), "detail": text[:15000], "tool": "thread"})
    nolsan = False
    for f, text in reports(f"{logs}/asan", ["Sanitizer"]):
        if "LeakSanitizer has encountered a fatal error" in text:
            nolsan = True
        elif "ERROR: AddressSanitizer" in text or "ERROR: LeakSanitizer" in text or "runtime error" in text:
            viol.append({"case": 0, "msg": "AddressSanitizer/LeakSanitizer: " + headline(text), "detail": text[:15000], "tool": "address"})
    miri_err = []
    for j in jobs:
        for u in j.utf8:
            viol.append({"case": u["case"], "msg": f"{j.tag}: {u['msg']}", "detail": None, "tool": j.tag})
        for c in j.crashes:
            if j.tag == "miri":
                t = j.stderr.decode("utf-8", "replace")
                m = re.search(r"^error: (Undefined Behavior|memory leaked|the program leaked|deadlock|abnormal termination: )[^\n]*", t, re.M)
                if m and "deadlock" not in m.group(0):
                    viol.append({"case": c["case"], "msg": "Miri: " + m.group(0), "detail": t[-8000:], "tool": "miri"})
                else:
                    miri_err.append(f"case {c['case']}: rc {c['rc']}: {t[-600:]}")
            elif c["rc"] < 0 and -c["rc"] in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL) and j.tag != "address":
                viol.append({"case": c["case"], "msg": f"{j.tag}: the process died of {signal.Signals(-c['rc']).name} in {j.prop}", "detail": c["stderr"], "tool": j.tag})
            else:
                notes.append(f"{j.tag} {j.prop} case {c['case']} ended with {c['rc']}")
        notes += [f"{j.tag} {j.prop} case {s['case']}: {s['msg']}" for s in j.stalls]
    if nolsan:
        notes.append("LeakSanitizer could not run here (ptrace); leaks are decided by Miri and by C15's counting allocator")
    sigs, _, _ = merge(jobs)
    per = {}
    for j in jobs:
        d = per.setdefault(j.tag, {}).setdefault(j.prop, {"evaluations": 0, "cases": 0, "events": 0})
        d["evaluations"] += j.evals
        d["cases"] += j.done
        d["events"] += j.events
    samples = [{"tool": t, **s} for t in ("miri", "thread", "address") for j in jobs if j.tag == t for s in j.samples[:1]][:12]
    evals, events = sum(j.evals for j in jobs), sum(j.events for j in jobs)
    cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": RULE25, "samples": samples, "events_observed": events, "per_tool": per,
           "build_s": round(build_s, 1), "notes": notes[:20]}
    write_evidence("C25", tier, seed, cov, len(viol))
    if viol:
        for x in viol[:5]:
            say(f"  {x['msg'][:600]}")
        path = replay_file("C25", seed, tier, viol[0], viol[0]["tool"])
        say(f"VIOLATION property=C25 replay={path}")
        return 1
    if miri_err:
        give_up(2, f"Miri could not run: {miri_err[0]}")
    for tool, floor in (("thread", 0.5), ("address", 0.5), ("miri", 0.5)):
        want = sum((x[1] if q else 20) for x in {"thread": TSAN, "address": ASAN, "miri": MIRI}[tool])
        got = sum(d["cases"] for d in per.get(tool, {}).values())
        if got < want * floor:
            give_up(3, f"{tool}: only {got} of {want} cases ran; {notes[:3]}")
    say(f"C25: no report on {evals} evaluations ({events} events observed, {len(sigs)} distinct; {({t: sum(d['cases'] for d in p.values()) for t, p in per.items()})} cases), "
        f"seed {seed}, {tier}, {time.time() - T0:.1f} s")
    for n in notes[:5]:
        say("  note: " + n[:300])
    return 0


def headline(text):
    for line in text.splitlines():
        if "Sanitizer" in line and ("WARNING" in line or "ERROR" in line or "SUMMARY" in line):
            return line.strip()
    return text.strip()[:200]


def replay(path):
    d = json.load(open(path))
    if d["property"] == "C25":
        return sanitizer_check(d["tier"], d["seed"])
    ok, log = build("plain")
    if not ok:
        give_up(2, log[-2000:])
    exe, env = ok
    env["BSPMON_DICT"] = os.path.join(BUILD, f"dict.{os.getpid()}.json")
    with open(env["BSPMON_DICT"], "w") as f:
        json.dump(dictionary(), f)
    jobs = alone(exe, env, d["property"], d["seed"], d["tier"], d["case"], 1, 40)
    os.remove(env["BSPMON_DICT"])
    bad = jobs[0].viol + jobs[0].stalls + jobs[0].crashes + [k for k in jobs[0].known if k["key"] not in known_keys(d["property"])]
    say(json.dumps(bad, indent=1)[:6000])
    if bad:
        say(f"VIOLATION property={d['property']} replay={path}")
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "--build":
        for k in a[1:]:
            ok, log = build(k)
            if not ok:
                say(log[-3000:])
                give_up(2, f"the {k} build failed")
        sys.exit(0)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if tier not in ("quick", "thorough") or (prop not in PLAN and prop != "C25"):
        give_up(2, "usage: check.sh ID [quick|thorough]")
    sys.exit(sanitizer_check(tier, seed) if prop == "C25" else plain_check(prop, tier, seed))


if __name__ == "__main__":
    main()
