#!/usr/bin/env python3
"""Turn the planted bugs described in bugs/*.py into /verif/seeded/<id>/, and confirm each of them
in a scratch copy of /repo: the patch applies, changes lines of the original repository, builds,
passes the stable tests, and the demonstration passes without it and fails with it.

  mkseed.py [ID...]        make and confirm
  mkseed.py --catch [ID..] apply to /repo in turn, run the quick check of its property, undo
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent.parent
REPO = pathlib.Path("/repo")
ORIG = "be47f07"


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def load():
    bugs = {}
    for f in sorted((HERE / "bugs").glob("*.txt")):
        bugs[f.stem] = parse(f.read_text())
    return bugs


def parse(text):
    """Sections start with '=== name'; 'edit FILE' sections hold OLD, a line '---', and NEW."""
    bug = {"edits": []}
    name, lines = None, []

    def close():
        if name is None:
            return
        body = "\n".join(lines).strip("\n")
        if name.startswith("edit "):
            old, new = body.split("\n---\n", 1) if "\n---\n" in body else (body[: -len("\n---")], "")
            bug["edits"].append((name[5:].strip(), old, new))
        else:
            bug[name] = body

    for line in text.splitlines():
        if line.startswith("=== "):
            close()
            name, lines = line[4:].strip(), []
        else:
            lines.append(line)
    close()
    return bug


def scratch():
    d = pathlib.Path(tempfile.mkdtemp(prefix="seed."))
    subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    return d


def make(bid, bug, d):
    repo = d / "repo"
    run(["git", "-C", str(repo), "checkout", "--", "."])
    for f, old, new in bug["edits"]:
        p = repo / f
        text = p.read_text()
        if text.count(old) != 1:
            return f"edit of {f}: {text.count(old)} matches for {old[:60]!r}"
        p.write_text(text.replace(old, new))
    diff = run(["git", "-C", str(repo), "diff"]).stdout
    removed_original = False
    for f, old, new in bug["edits"]:
        orig = set(run(["git", "-C", str(REPO), "show", f"{ORIG}:{f}"]).stdout.splitlines())
        fd = run(["git", "-C", str(repo), "diff", "--", f]).stdout
        removed_original |= any(
            l[1:] in orig and l[1:].strip() for l in fd.splitlines() if l.startswith("-") and not l.startswith("---")
        )
    if not removed_original:
        return "changes no line of the original repository"
    out = VERIF / "seeded" / bid
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(diff)
    shutil.copy(HERE / "demo.sh", out / "demo.sh")
    (out / "main.rs").write_text(bug["demo"] + "\n")
    meta = {"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}
    (out / "meta.json").write_text(json.dumps(meta, indent=1) + "\n")
    return None


def confirm(bid, d):
    repo, out = d / "repo", VERIF / "seeded" / bid
    demo = lambda: run(["bash", str(out / "demo.sh")], cwd=repo, timeout=300)
    run(["git", "-C", str(repo), "checkout", "--", "."])
    r = demo()
    if r.returncode != 0:
        return f"demo fails on the unchanged tree ({r.returncode}): {r.stdout[-1500:]} {r.stderr[-600:]}"
    a = run(["git", "-C", str(repo), "apply", str(out / "patch.diff")])
    if a.returncode:
        return "does not apply: " + a.stderr
    env = dict(os.environ, CARGO_TARGET_DIR=str(d / "target"), CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
    t = run(["cargo", "test", "--workspace", "--offline", "--lib"], cwd=repo, env=env)
    run(["git", "-C", str(repo), "checkout", "--", "Cargo.lock"])
    if t.returncode:
        return "tests fail or do not build: " + (t.stdout + t.stderr)[-1500:]
    r = demo()
    run(["git", "-C", str(repo), "checkout", "--", "."])
    if r.returncode == 0:
        return "demo passes with the patch: " + r.stdout[-500:]
    if r.returncode == 2:
        return "demo does not build with the patch: " + r.stdout[-1500:]
    return None, (r.stdout + r.stderr).strip()[-160:]


def catch(bid, prop, tier="quick"):
    out = VERIF / "seeded" / bid
    if run(["git", "-C", str(REPO), "status", "--porcelain"]).stdout.strip():
        sys.exit("/repo is not clean")
    a = run(["git", "-C", str(REPO), "apply", str(out / "patch.diff")])
    if a.returncode:
        return "DOES NOT APPLY"
    t = time.time()
    try:
        r = run([str(VERIF / "check.sh"), prop, tier], env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
    finally:
        run(["git", "-C", str(REPO), "checkout", "--", "."])
    hit = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={prop}")]
    first = next((l for l in r.stdout.splitlines() if l.strip().startswith("why") or "why" in l), "")
    return f"{'CAUGHT' if r.returncode == 1 and hit else 'MISSED rc=%d' % r.returncode} {time.time()-t:.0f}s {len(hit)} lines {first[:150]}"


def main():
    args = sys.argv[1:]
    bugs = load()
    if args and args[0] == "--catch":
        for bid in args[1:] or sorted(bugs):
            res = catch(bid, bugs[bid]["property"])
            print(bid, bugs[bid]["property"], res, flush=True)
            f = VERIF / "tools/seeds/caught.json"
            d = json.loads(f.read_text()) if f.exists() else {}
            d[bid] = " ".join(res.split()[:2 if res.startswith("CAUGHT") else 1]).lower()
            f.write_text(json.dumps(d, indent=1, sort_keys=True) + "\n")
        return
    ids = args or sorted(bugs)
    d = scratch()
    try:
        for bid in ids:
            err = make(bid, bugs[bid], d)
            res = err or confirm(bid, d)
            if isinstance(res, tuple):
                print("ok  ", bid, bugs[bid]["property"], "|", res[1].replace("\n", " / "), flush=True)
            else:
                print("BAD ", bid, bugs[bid]["property"], "|", res, flush=True)
    finally:
        shutil.rmtree(d)


main()
