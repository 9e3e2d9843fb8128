"""Runs one property's check: TLC on the specification, replay/recording on the
real code, TLC on the recorded trace.  See DESIGN.md, "How a check works"."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4

sys.path.insert(0, os.path.join(VERIF, "lib"))
from registry import CHECKS  # noqa: E402


class Machinery(Exception):
    pass


def java_classes():
    """Compile the XReal override (cached under build/, keyed by its source)."""
    src = os.path.join(VERIF, "java", "XReal.java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "java-" + h)
    if os.path.exists(os.path.join(out, "XReal.class")):
        return out
    tmp = tempfile.mkdtemp(prefix="verif-java-")
    r = subprocess.run(["javac", "-cp", TLA, "-d", tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise Machinery("javac failed:\n" + r.stderr)
    try:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        os.rename(tmp, out)
        return out
    except OSError:
        if os.path.exists(os.path.join(out, "XReal.class")):
            shutil.rmtree(tmp, ignore_errors=True)
            return out
        return tmp  # e.g. read-only or cross-device: use it where it is


def run_tlc(module, cfg, work, env, workers, timeout, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss16m", "-Djava.io.tmpdir=" + meta,
           "-cp", ":".join([java_classes(), TLA, CM]), "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ, **env)
    out_path = os.path.join(work, "out-%s-%d.txt" % (os.path.basename(module), time.time_ns()))
    with open(out_path, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timed out on " + module)
    out = open(out_path).read()
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return rc, out, gen, dist


def tail(out, n=40):
    return "\n".join([x for x in out.splitlines() if not x.startswith(("Loading", "Parsing", "Semantic", "Linting", "Computed"))][-n:])


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = check(prop, chk, tier, seed, work, t0)
    except Machinery as e:
        print("ERROR property=%s %s" % (prop, e))
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def py_env(work):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("PYTHON"):
            del e[k]
    e.update(PYTHONNOUSERSITE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             PYTHONPATH=REPO, VERIF_REPO=REPO, VERIF_SCRATCH=os.path.join(work, "scratch"))
    os.makedirs(e["VERIF_SCRATCH"], exist_ok=True)
    return e


def check(prop, chk, tier, seed, work, t0):
    states = trans = 0
    mc_notes = []
    # 1. The specification itself: exhaustive small-scope model checking, which
    #    also writes the cases / behaviours that are replayed below.
    cases_files = []
    for mod in chk.get("mc", []):
        name, consts = mod if isinstance(mod, tuple) else (mod, {})
        consts = dict(consts.get("common", {}), **consts.get(tier, {})) if consts else {}
        base_cfg = open(os.path.join(SPEC, name + ".cfg")).read()
        cfg = os.path.join(work, name + ".cfg")
        lines = base_cfg.splitlines()
        for k, v in consts.items():
            lines = [re.sub(r"^(\s*(?:CONSTANT\s+)?%s\s*=).*" % k, r"\1 %s" % v, x) for x in lines]
        open(cfg, "w").write("\n".join(lines) + "\n")
        cf = os.path.join(work, name + ".cases")
        rc, out, gen, dist = run_tlc(os.path.join(SPEC, name + ".tla"), cfg, work, {"CASES": cf}, CPUS, 850 if tier == "quick" else 7200)
        if rc != 0:
            raise Machinery("TLC rejects the specification %s:\n%s" % (name, tail(out)))
        states += dist
        trans += gen
        mc_notes.append("%s: %d distinct states, %d generated%s" % (name, dist, gen, (" " + json.dumps(consts)) if consts else ""))
        if os.path.exists(cf):
            cases_files.append(cf)
    # 2. The real code: replay the specification's cases, plus seeded inputs.
    trace = os.path.join(work, "trace.ndjson")
    env = py_env(work)
    env.update(VERIF_TIER=tier, VERIF_SEED=str(seed))
    cmd = [PY, "-B", "-W", "ignore", os.path.join(VERIF, "drivers", chk["driver"] + ".py"), prop, trace] + cases_files
    err_path = os.path.join(work, "driver.err")
    with open(err_path, "w") as ef:
        p = subprocess.Popen(cmd, cwd=work, env=env, stdout=ef, stderr=subprocess.STDOUT, start_new_session=True)
        hung = False
        try:
            p.wait(timeout=600 if tier == "quick" else 7200)
        except subprocess.TimeoutExpired:
            hung = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    err = open(err_path, errors="replace").read()
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    if hung or p.returncode != 0:
        # 7: the library could not be imported; 1: an exception the driver did
        # not expect, i.e. a result not of the form the library documents
        if hung or p.returncode in (1, 7):
            os.makedirs(replay_dir, exist_ok=True)
            rp = os.path.join(replay_dir, prop + "-driver.txt")
            open(rp, "w").write(err[-20000:])
            print("the library %s" % ("did not finish" if hung else "cannot be imported" if p.returncode == 7 else "returned something the driver cannot read"))
            print(err[-1500:])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            evidence(prop, chk, tier, seed, states, trans, 0, [], mc_notes, t0, 1, {})
            return 1
        raise Machinery("driver failed (%d):\n%s" % (p.returncode, err[-6000:]))
    events = [json.loads(x) for x in open(trace)]
    if not events:
        raise Machinery("driver recorded nothing")
    # 3. Trace validation: is every recorded call one the specification allows?
    tm = chk["trace"]
    shards = 1 if chk.get("sequential") else min(CPUS, len(events))
    bad, skip = {}, set()
    while True:
        cur = [e for e in events if e["id"] not in skip]
        if not cur:
            break
        with open(trace, "w") as f:
            for e in cur:
                f.write(json.dumps(e) + "\n")
        sh = min(shards, len(cur))
        rc, out, gen, dist = run_tlc(os.path.join(SPEC, tm + ".tla"), os.path.join(SPEC, tm + ".cfg"), work,
                                     {"TRACE": trace, "SHARDS": str(sh), "PROP": prop}, sh, 850 if tier == "quick" else 7200)
        found = {}
        for m in re.finditer(r'"@BAD (\d+) (.*)"', out):
            found.setdefault(int(m.group(1)), set()).update(re.findall(r'\\"([^"\\]+)\\"', m.group(2)))
        for k, v in found.items():
            bad.setdefault(k, set()).update(v)
        m = re.search(r'"@DONE (\d+)"', out)
        if rc == 0 and dist == len(cur):
            states += dist
            trans += gen
            break
        # An event TLC could not evaluate: its result has a shape the
        # specification does not know.  Report it and go on with the rest.
        ids = [int(x) for x in re.findall(r"(?m)^\s*(?:/\\ )?l = (\d+)", out)]
        if rc != 0 and ids and len(skip) < 25 and not chk.get("sequential"):
            e = cur[ids[-1] - 1]
            bad.setdefault(e["id"], set()).add("result-not-interpretable")
            if os.environ.get("VERIF_DEBUG"):
                print(tail(out, 30))
            skip.add(e["id"])
            continue
        if rc != 0 and ids and chk.get("sequential"):
            e = cur[ids[-1] - 1]
            bad.setdefault(e["id"], set()).add("result-not-interpretable")
            if os.environ.get("VERIF_DEBUG"):
                print(tail(out, 30))
            break
        if len(skip) >= 25:
            break
        raise Machinery("trace validation did not complete (%d of %d events, rc %d):\n%s" % (dist, len(cur), rc, tail(out)))
    by_id = {e["id"]: e for e in events}
    known = known_findings(prop)
    new = {}
    for i, cl in sorted(bad.items()):
        e = by_id[i]
        key = e.get("key", "")
        hit = [k for k in known if k == key and key]
        if hit:
            print("KNOWN-FINDING: property=%s %s %s" % (prop, key, sorted(cl)))
        else:
            new[i] = sorted(cl)
    kinds = {}
    for e in events:
        kinds[e["op"]] = kinds.get(e["op"], 0) + 1
    distinct = len({json.dumps({k: v for k, v in e.items() if k != "id"}, sort_keys=True) for e in events})
    evidence(prop, chk, tier, seed, states, trans, len(events), events, mc_notes, t0, len(new), kinds, distinct)
    if new:
        os.makedirs(replay_dir, exist_ok=True)
        rp = os.path.join(replay_dir, "%s.json" % prop)
        with open(rp, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, total=len(new),
                           reproduce="VERIF_SEED=%d VERIF_TIER=%s %s %s" % (seed, tier, os.path.join(VERIF, "bin", "check"), prop),
                           violations=[dict(failing_clauses=c, event=by_id[i]) for i, c in list(new.items())[:50]]), f, indent=1)
        for i, c in list(new.items())[:5]:
            s = json.dumps(by_id[i])
            print("event %d (%s) breaks %s: %s" % (i, by_id[i]["op"], c, s if len(s) < 1500 else s[:1500] + "..."))
        print("%d of %d recorded calls are not allowed by the specification" % (len(new), len(events)))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s events=%d states=%d %s (%.1fs)" % (prop, len(events), states, kinds, time.time() - t0))
    return 0


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+)", line)
            if m and m.group(1) == prop:
                r.append(m.group(2))
    return r


def evidence(prop, chk, tier, seed, states, trans, n, events, mc_notes, t0, violations, kinds, distinct=0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = []
    for k in kinds:
        es = [e for e in events if e["op"] == k]
        s = json.dumps(es[len(es) // 2])
        samples.append(json.loads(s) if len(s) < 3000 else dict(op=k, truncated=s[:3000]))
    d = dict(property=prop, tier=tier, seed=seed, level="model_checking",
             coverage=dict(states=states, transitions=trans, traces_validated_against_impl=n, distinct_events=distinct,
                           events_by_kind=kinds, model_checked=mc_notes, samples=samples[:8],
                           exhaustive=False),
             assumptions=chk.get("assumptions", []) + [
                 "java/XReal.java (exact rational arithmetic for TLC) is trusted; setup checks it with MC_XReal",
                 "the code is judged on the recorded calls; between them the specification's small scope is exhaustive, the code's is sampled"],
             wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)


if __name__ == "__main__":
    main()
