#!/usr/bin/env python3
"""Decide one property of /repo's current tree.

   check.py Cxx [--tier quick|thorough] [--seed N] [--scale F]

1. builds the harness against /repo's working tree,
2. lets TLC explore the bounded models of the property (spec/MC*.tla): spec-level properties are
   checked in every state and every behaviour is written out as a program,
3. replays these programs, and seeded random ones, on the real library, recording a trace,
4. lets TLC validate every recorded trace against the specification (spec/*Trace.tla).

Exit 0: held.  Exit 1 with "VIOLATION property=<id> replay=<path>": broken.  Exit 2: tool error.
"""
import argparse, collections, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan  # noqa: E402

WORK = os.path.join(HERE, "work")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(1, min(8, os.cpu_count() or 1))


def fail(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", RUSTFLAGS="-Ctarget-cpu=x86-64-v3")
    return e


def build(profile):
    cmd = ["cargo", "build", "--offline", "--quiet"] + ([] if profile == "dev" else ["--profile", profile])
    for attempt in range(2):
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return os.path.join(HERE, "harness/target", "debug" if profile == "dev" else profile, "conform")
    print(p.stdout[-4000:], file=sys.stderr)
    fail("the harness does not build against /repo")


def tlc(module, cfg, env, meta, heap="2g", timeout=800, workers=1, extra=()):
    e = dict(os.environ)
    e.update(env)
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-nowarning", "-workers", str(workers),
           "-metadir", meta, "-config", cfg, *extra, module]
    log = meta + ".out"
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=os.path.join(HERE, "spec"), env=e, stdout=f, stderr=subprocess.STDOUT)
        procs.add(p)
        t0, grown, size, bad = time.time(), time.time(), 0, False
        late = False
        while True:
            try:
                p.wait(timeout=0.2 if not bad else 1)
                break
            except subprocess.TimeoutExpired:
                pass
            now, n = time.time(), os.path.getsize(log)
            if n != size:
                with open(log, errors="replace") as g:
                    g.seek(max(0, size - 10))
                    bad = bad or "\nError:" in g.read()
                size, grown = n, now
            # after reporting an error TLC can spend unbounded time on formatting it
            if now - t0 > timeout or (bad and now - grown > 15):
                late = now - t0 > timeout
                p.kill()
    out = open(log, errors="replace").read() + ("\nTIMEOUT" if late else "")
    os.remove(log)
    procs.discard(p)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


procs = set()
stop = threading.Event()
MM = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)
PAIR = re.compile(r'<<\s*"(C\d\d)",\s*"([^"]*)"\s*>>')
STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


class Result:
    def __init__(self):
        self.states = self.transitions = self.programs = self.events = self.unevaluated = 0
        self.issues = []      # (tag, what, trace file, line)
        self.ops = collections.Counter()
        self.outs = collections.Counter()
        self.kinds = collections.Counter()


def validate(prop, module, trace, res, lock, depth=0):
    """validate one trace; returns issues of prop"""
    if stop.is_set():
        return
    rc, out = tlc(module + ".tla", module + ".cfg", {"TRACE": trace}, trace + ".md")
    issues = []
    for m in MM.finditer(out):
        for tag, what in PAIR.findall(m.group(2)):
            issues.append((tag, what, trace, int(m.group(1))))
    done = "Model checking completed. No error has been found." in out
    st = STATES.search(out)
    lines = open(trace).read().splitlines()
    nlines = len(lines)
    bad = None
    if not done:
        if stop.is_set():
            return
        # the evaluation of one event failed: its position is the last state printed
        ns = [int(x) for x in re.findall(r"^State (\d+):", out, re.M)]
        if not ns or depth > 60:
            if "TIMEOUT" in out:
                fail("TLC timed out on " + trace)
            print(out[-3000:], file=sys.stderr)
            fail("TLC failed on " + trace)
        bad = ns[-1]
    with lock:
        res.issues += issues
        if st:
            res.states += int(st.group(2).replace(",", ""))
            res.transitions += max(0, int(st.group(1).replace(",", "")) - 1)
        if any(t == prop for t, *_ in issues):
            stop.set()
    if bad is not None:
        # an observation the specification cannot even describe is a deviation of the operation concerned
        ev = json.loads(lines[bad - 1])
        with lock:
            res.unevaluated += 1
            for t in plan.tags_of(ev):
                res.issues.append((t, "not-describable", trace, bad))
                if t == prop:
                    stop.set()
            res.states += bad
            res.transitions += bad - 1
        rest = [i for i in range(bad, nlines) if lines[i].startswith('{"op":"prog"')]
        if rest and not stop.is_set():
            t2 = trace + ".r%d" % depth
            open(t2, "w").write("\n".join(lines[rest[0]:]) + "\n")
            validate(prop, module, t2, res, lock, depth + 1)


def generate(binary, args, trace, first, end):
    """run the harness; a crash ends the process after recording it, so go on behind it"""
    cur = first
    n = 0
    while cur < end and not stop.is_set():
        p = subprocess.Popen([binary, *args, "--start", str(cur), "--count", str(end), "--out", trace], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        procs.add(p)
        try:
            rc = p.wait(timeout=400)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 99
        procs.discard(p)
        if rc == 0:
            return
        if stop.is_set():
            return
        last = cur
        if os.path.exists(trace):
            with open(trace) as f:
                for line in f:
                    if line.startswith('{"op":"prog"'):
                        last = json.loads(line)["id"]
        if rc != 3:
            print("harness exit %s in %s program %s" % (rc, trace, last), file=sys.stderr)
        n += 1
        cur = last + 1
        if n > 200:
            return
        if rc not in (3, 99, -9) and n > 20:
            fail("the harness keeps failing")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--build", action="store_true", help="only build the harness")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--all-tags", action="store_true", help="development: report every property's issues")
    a = ap.parse_args()
    if a.build:
        build("dev")
        sys.exit(0)
    prop, t0 = a.prop, time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    work = os.path.join(WORK, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    binary = build("dev")
    p = plan.PLAN[prop]
    res, lock = Result(), threading.Lock()
    model_states = model_trans = 0
    models = []
    jobs = []      # (args, trace, first, end, module, profile binary)

    # --- bounded models: explored exhaustively by TLC, behaviours replayed on the code
    pool = cf.ThreadPoolExecutor(JOBS)
    mruns = []
    for m in p["models"]:
        if tier == "quick" and m.get("thorough"):
            continue
        mruns.append((m, pool.submit(run_model, m, tier, work, a.seed)))

    # --- seeded random programs
    profs = [binary]
    if tier == "thorough":
        profs.append(build("rel"))
    for bi, b in enumerate(profs):
        for g in p["gens"]:
            n = int(g["n"] * a.scale) if tier == "quick" else int(g.get("nt", g["n"] * 12) * a.scale)
            chunk = g.get("chunk", 500)
            for k in range(0, n, chunk):
                jobs.append((["--focus", g.get("focus", prop), "--seed", str(a.seed + 1000 * bi)], os.path.join(work, "%s-%d-%d.nd" % (g.get("focus", prop), bi, k)), k, min(n, k + chunk), g.get("trace", "RedstoneTrace"), b))

    samples = []

    def job(j):
        args, trace, first, end, module, b = j
        if stop.is_set():
            return
        generate(b, args, trace, first, end)
        if stop.is_set() or not os.path.exists(trace):
            return
        with open(trace) as f:
            ev = 0
            for line in f:
                m = re.match(r'\{"op":"([^"]*)"', line)
                if not m:
                    continue
                if m.group(1) == "prog":
                    with lock:
                        res.programs += 1
                else:
                    ev += 1
                    o = re.search(r'"out":"([^"]*)"', line)
                    with lock:
                        res.ops[m.group(1)] += 1
                        if o:
                            res.outs[o.group(1)] += 1
                        if len(samples) < 3 and ev % 11 == 5 and len(line) < 900:
                            samples.append(json.loads(line))
            with lock:
                res.events += ev
        validate(prop, module, trace, res, lock)
        mine = any(t == prop or a.all_tags for t, _, tr, _ in res.issues if tr.startswith(trace))
        if not (a.keep or mine):
            for x in (trace,):
                try:
                    os.remove(x)
                except OSError:
                    pass

    futs = [pool.submit(job, j) for j in jobs]
    err = None

    def replay_model(m, f):
        nonlocal model_states, model_trans
        st, tr, progs = f.result()
        model_states += st
        model_trans += tr
        models.append({"model": m["name"], "module": m["module"], "bounds": m.get("env", {}) if tier == "quick" else {**m.get("env", {}), **m.get("tenv", {})},
                       "states": st, "transitions": tr, "programs_replayed": len(progs)})
        chunk = m.get("chunk", 400)
        for k in range(0, len(progs), chunk):
            src = os.path.join(work, "%s-%d.prog" % (m["name"], k))
            open(src, "w").write("\n".join(progs[k:k + chunk]) + "\n")
            futs.append(pool.submit(job, (["--replay", src], src + ".nd", 0, min(chunk, len(progs) - k), m.get("trace", "RedstoneTrace"), binary)))

    todo = [(lambda m=m, f=f: replay_model(m, f)) for m, f in mruns]
    pos = 0
    while todo or pos < len(futs):
        try:
            if todo:
                todo.pop(0)()
            else:
                futs[pos].result()
                pos += 1
        except SystemExit:
            err = True
            stop.set()
        except Exception as e:  # noqa
            err = e
            stop.set()
        if stop.is_set():
            for q in list(procs):
                try:
                    q.kill()
                except OSError:
                    pass
    pool.shutdown()

    issues = [i for i in res.issues if i[0] == prop or a.all_tags]
    known = load_known(prop)
    viol = []
    for tag, what, trace, line in issues:
        ev, prog = locate(trace, line)
        desc = describe(ev)
        k = next((x for x in known if x["match"] in desc + " " + what), None)
        if k:
            k["hit"] = True
        else:
            viol.append((tag, what, trace, line, ev, prog))
    if not viol and err and not issues:
        if not isinstance(err, bool):
            print("ERROR: %r" % (err,), file=sys.stderr)
        sys.exit(2)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    replay = None
    if viol:
        replay = os.path.join(WORK, "replay-%s.json" % prop)
        v = viol[0]
        json.dump({"property": v[0], "what": sorted({x[1] for x in viol if x[2:4] == v[2:4]}), "program": v[5], "event": v[4],
                   "trace": v[2], "line": v[3], "seed": a.seed,
                   "how": "the events of the program, in order, are library calls (see harness/src/vm.rs, tensor.rs); the last one deviates from the specification"},
                  open(replay, "w"), indent=1)
        seen = set()
        for tag, what, trace, line, ev, prog in viol[:40]:
            d = "%s %s: %s" % (tag, what, describe(ev)[:300])
            if d not in seen:
                seen.add(d)
                print("  " + d)
    cov = {"states": model_states + res.states, "transitions": model_trans + res.transitions,
           "traces_validated_against_impl": res.programs, "events_validated": res.events,
           "model_states": model_states, "models": models, "events_by_operation": dict(res.ops), "outcomes": dict(res.outs),
           "samples": samples or [{"note": "stopped early"}]}
    json.dump({"property": prop, "tier": tier, "seed": a.seed, "level": plan.LEVEL, "coverage": cov,
               "assumptions": plan.ASSUME + p.get("assume", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol)},
              open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d model states, %d programs, %d events validated, %.0f s" % (prop, tier, model_states, res.programs, res.events, time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    if not a.keep:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(0)


def run_model(m, tier, work, seed):
    """TLC explores a bounded model; returns states, transitions and the programs it printed"""
    env = {k: str(v) for k, v in {**m.get("env", {}), **(m.get("tenv", {}) if tier == "thorough" else {})}.items()}
    env["SEED"] = str(seed)
    rc, out = tlc(m["module"] + ".tla", m.get("cfg", m["module"]) + ".cfg", env, os.path.join(work, m["name"] + ".md"), heap="6g" if tier == "quick" else "12g", timeout=780 if tier == "quick" else 6000, workers=m.get("workers", 4), extra=m.get("extra", ()))
    if "No error has been found" not in out:
        if stop.is_set():
            return 0, 0, []
        print(out[-4000:], file=sys.stderr)
        fail("model %s failed" % m["name"])
    progs = []
    for line in out.splitlines():
        if line.startswith('"PROG '):
            progs.append(json.loads(line)[5:])
    progs = sorted(set(progs))
    st = STATES.findall(out)[-1]
    lim = m.get("limit") if tier == "quick" else None
    if lim and len(progs) > lim:
        import random
        progs = sorted(random.Random(seed).sample(progs, lim))
    return int(st[1].replace(",", "")), int(st[0].replace(",", "")), progs


def locate(trace, line):
    lines = open(trace).read().splitlines()
    s = line - 1
    while s > 0 and not lines[s].startswith('{"op":"prog"'):
        s -= 1
    return json.loads(lines[line - 1]), [json.loads(x) for x in lines[s:line]]


def describe(ev):
    keep = {k: v for k, v in ev.items() if k not in ("tab", "mem", "x", "items", "conv", "live")}
    return json.dumps(keep, separators=(",", ":"))


def load_known(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(C\d\d) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "text": m.group(3), "hit": False})
    return out


if __name__ == "__main__":
    main()
