#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness against /repo's current working tree, runs the monitors of
one property, writes evidence/<property>.json and prints the verdict:
exit 0 held, exit 1 "VIOLATION property=<id> replay=<path>", exit 2 the check
itself could not decide (a build failure, a harness bug, nothing observed).
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GSE_REPO", "/repo")

RACE = {"C15": True, "C16": True, "C17": False}   # harness built with -race
EMBED = {"C14", "C18", "C23"}                     # a second build with embedded dictionaries
# what stands in for the dictionaries that the repository does not contain
OVERLAY = {"data/dict/zh/s_1.txt": "s_1.txt", "data/dict/zh/t_1.txt": "t_1.txt",
           "data/dict/zh/idf.txt": "idf.txt", "data/dict/jp/dict.txt": "jp.txt",
           "data/dict/zh/stop_tokens.txt": "stop_tokens.txt"}
LIMIT = {"quick": 800, "thorough": 4 * 3600}      # seconds the monitors may take

# what every check takes for granted
TRUST = ["the Go compiler, runtime and race detector",
         "the reference models in /verif/harness (read them with the code)"]


def go_env(tmp):
    env = dict(os.environ)
    env["PATH"] = env.get("PATH", "/usr/bin:/bin") + ":/usr/local/go/bin"
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
               TMPDIR=tmp, GOTMPDIR=tmp, GSE_REPO=REPO)
    env.setdefault("HOME", "/root")
    return env


def build(tmp, env, race, embed=False):
    """The harness, in a copy so that nothing under /verif is written."""
    src = os.path.join(tmp, "src-embed" if embed else "src")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    if REPO != "/repo":
        p = os.path.join(src, "go.mod")
        text = open(p).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(text)
    out = os.path.join(tmp, "gseverif-embed" if embed else "gseverif")
    cmd = ["go", "build", "-tags", "ne", "-o", out]
    if embed:
        over = os.path.join(tmp, "overlay.json")
        root = os.path.realpath(REPO)
        json.dump({"Replace": {os.path.join(root, k): os.path.join(src, "data/embed", v)
                               for k, v in OVERLAY.items()}}, open(over, "w"))
        cmd[2:4] = ["-tags", "embedtest", "-overlay", over]
    if race:
        cmd.insert(2, "-race")
    p = subprocess.run(cmd + ["."], cwd=src, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise SystemExit2("the harness does not build against " + REPO + ":\n" + p.stdout[-4000:])
    return out


class SystemExit2(Exception):
    pass


def run(cmd, env, tmp, limit):
    """Run the harness in its own process group; returns rc, stderr, timed out."""
    err = os.path.join(tmp, "stderr")
    with open(err, "wb") as f:
        p = subprocess.Popen(cmd, env=env, cwd=tmp, stdout=subprocess.DEVNULL, stderr=f,
                             start_new_session=True)
        try:
            rc, timed = p.wait(limit), False
        except subprocess.TimeoutExpired:
            p.send_signal(signal.SIGQUIT)      # stacks of every goroutine
            try:
                p.wait(20)
            except subprocess.TimeoutExpired:
                pass
            rc, timed = None, True
        try:
            os.killpg(p.pid, signal.SIGKILL)   # servers the harness started
        except OSError:
            pass
        p.wait()
    with open(err, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(0)
        text = f.read(400000).decode("utf-8", "replace")
        if n > 800000:
            f.seek(n - 400000)
        text += f.read(400000).decode("utf-8", "replace")
    return rc, text, timed


GSE = re.compile(r"github\.com/(go-ego/gse|vcaesar/cedar)")


def crash_in_library(err):
    """A crash of the process (fatal error, unrecovered panic in a goroutine of
    the library) is the library's when its frames are in the failing stack."""
    m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*|SIGSEGV.*|unexpected fault address.*)$",
                  err, re.M)
    if not m:
        return None
    tail = err[m.start():]
    first = re.search(r"^goroutine \d+.*?(?=^goroutine |\Z)", tail, re.M | re.S)
    block = first.group(0) if first else tail[:20000]
    if GSE.search(block) or (m.group(1).startswith("fatal error: concurrent map") and GSE.search(tail)):
        return tail[:5000]
    return None


def races(err):
    """Data races the detector reported with a library frame in them."""
    out = []
    for blk in re.findall(r"WARNING: DATA RACE\n.*?(?=^={10,})", err, re.M | re.S):
        out.append((bool(GSE.search(blk)), blk))
    return out


def clip(v):
    """A sample of a size that can be read."""
    if isinstance(v, str):
        return v if len(v) <= 2000 else v[:2000] + "... (%d characters)" % len(v)
    if isinstance(v, list):
        return [clip(x) for x in v[:60]] + (["... (%d items)" % len(v)] if len(v) > 60 else [])
    if isinstance(v, dict):
        return {k: clip(x) for k, x in v.items()}
    return v


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--kind", default="")
    ap.add_argument("--scale", default="1")
    a = ap.parse_args()
    if a.tier not in LIMIT:
        a.tier = "quick"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="gseverif-")
    try:
        return decide(a, tmp, t0)
    except SystemExit2 as e:
        print("ERROR property=%s %s" % (a.prop, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def observe(a, tmp, env, race, embed, replay, limit):
    """One run of the harness: its result, stderr and the violations."""
    exe = build(tmp, env, race, embed)
    out = os.path.join(tmp, "result-%d.json" % embed)
    scratch = os.path.join(tmp, "scratch-%d" % embed)
    os.makedirs(scratch)
    cmd = [exe, "-prop", a.prop, "-tier", a.tier, "-seed", str(a.seed), "-out", out,
           "-tmp", scratch, "-repo", REPO, "-scale", a.scale]
    if a.kind:
        cmd += ["-kind", a.kind]
    if replay.get("kind") and replay.get("case"):
        cmd += ["-replay", replay["kind"] + ":" + replay["case"]]
    elif replay:
        cmd[cmd.index("-seed") + 1] = str(replay.get("seed", a.seed))
    rc, err, timed = run(cmd, env, tmp, limit)
    viol = []
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            pass
    if res:
        for v in res.get("violations") or []:
            viol.append({"kind": v["kind"], "case": v["seed"], "message": v["message"]})
    other_races = 0
    for lib, blk in races(err):
        if lib:
            viol.append({"kind": "", "case": "", "message": "data race\n" + blk[:4000]})
        else:
            other_races += 1
    if res is None:
        c = crash_in_library(err)
        if c:
            viol.append({"kind": "", "case": "", "message": "the process crashed\n" + c})
        elif timed:
            raise SystemExit2("no verdict within %d s\n%s" % (limit, err[-3000:]))
        elif not viol:
            raise SystemExit2("the harness died (rc %s)\n%s" % (rc, err[-4000:]))
    if other_races:
        raise SystemExit2("data race inside the harness\n" + err[:4000])
    return res, err, viol


def decide(a, tmp, t0):
    env = go_env(tmp)
    race = RACE.get(a.prop, False)
    env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3"
    env["GOTRACEBACK"] = "all"
    replay = json.load(open(a.replay)) if a.replay else {}
    builds = [False] + ([True] if a.prop in EMBED and a.kind in ("", "embedded") else [])
    if a.kind == "embedded" or replay.get("kind"):
        builds = [(a.kind or replay["kind"]) == "embedded"]
    viol, res, err = [], None, ""
    for embed in builds:
        r, e, v = observe(a, tmp, env, race, embed, replay, LIMIT[a.tier] - int(time.time() - t0))
        viol += v
        err += e
        if res is None:
            res = r
        elif r:
            for k in ("evaluations", "distinct_nontrivial"):
                res[k] += r[k]
            for k in ("samples", "errors", "violations", "known"):
                res[k] = (res.get(k) or []) + (r.get(k) or [])
            for k, n in r["counters"].items():
                res["counters"][k] = res["counters"].get(k, 0) + n
    if res and res.get("errors") and not viol:
        raise SystemExit2("harness: " + "\n".join(res["errors"])[:6000])

    # known findings: printed, never raised
    listed = json.load(open(os.path.join(VERIF, "known-findings.json")))
    open_ids = {f["id"]: f for f in listed["findings"] if f["property"] == a.prop}
    for k in (res or {}).get("known") or []:
        if not k["fails"]:
            continue
        if k["id"] in open_ids:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, k["id"], k["what"]))
        else:
            viol.append({"kind": "", "case": "", "message": "unlisted finding %s: %s" % (k["id"], k["what"])})

    lines = []
    if viol:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for i, v in enumerate(viol):
            key = v["kind"] + ":" + v["case"] + ("" if v["case"] else str(i))
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            name = "%s-%s.json" % (a.prop, re.sub(r"[^A-Za-z0-9]+", "-", key).strip("-") or i)
            path = os.path.join(rdir, name)
            json.dump({"property": a.prop, "tier": a.tier, "seed": a.seed, **v,
                       "replay": "python3 /verif/check.py %s --seed %d --replay %s" % (a.prop, a.seed, path)},
                      open(path, "w"), indent=1, ensure_ascii=False)
            lines.append((path, v["message"]))

    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the run crashed before it could report"}
    if res:
        cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
               "rule": res["rule"], "samples": clip((res.get("samples") or [])[:40]), "counters": res["counters"]}
    cov.setdefault("samples", [])
    if race:
        cov["data_races_reported"] = len(races(err))
    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == a.prop), "exploration")
    if not a.replay:
        ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": level, "coverage": cov,
              "assumptions": TRUST, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", a.prop + ".json")
        with open(path + ".new", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        os.replace(path + ".new", path)

    if lines:
        for path, msg in lines:
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            print("  " + msg[:1500].replace("\n", "\n  "))
        return 1
    if not a.replay and (cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0):
        raise SystemExit2("the monitors observed nothing")
    print("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        a.prop, a.tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
