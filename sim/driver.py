"""Runs batches of simulated runs in worker processes, gates, minimises and
reports violations, writes evidence."""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait
import simbuild

VERIF = simbuild.VERIF
LEVEL = "exploration"

# runs per batch (one process) and number of runs, per tier
PLAN = json.load(open(os.path.join(simbuild.HERE, "plan.json")))
NWORK = 8
CAP = {"quick": 260, "thorough": 3000}
MINIMISE = {"quick": 150, "thorough": 600}
HANG = 100.0


def run_seed(seed, prop, i):
    h = hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()
    return int.from_bytes(h[:6], "big") >> 1


def r_lit(x):
    if x is None:
        return "NULL"
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, (int, float)):
        return repr(x)
    if isinstance(x, str):
        return json.dumps(x, ensure_ascii=True)
    if isinstance(x, dict):
        return "list(" + ", ".join("`%s` = %s" % (k, r_lit(v)) for k, v in x.items()) + ")"
    if isinstance(x, list):
        if x and all(isinstance(v, int) and not isinstance(v, bool) for v in x):
            return "c(" + ", ".join(map(repr, x)) + ")"
        return "list(" + ", ".join(map(r_lit, x)) + ")"
    raise TypeError(x)


class Result:
    def __init__(self):
        self.runs = []; self.end = None; self.viol = None; self.rc = None; self.wall = 0.0
        self.harness = None


class Sim:
    def __init__(self, prop, tier, build, work):
        self.prop, self.tier, self.build, self.work = prop, tier, build, work
        self.known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
        self.stop = threading.Event()
        self.procs = set()
        self.lock = threading.Lock()
        self.image = simbuild.image(build)
        self.n = 0

    def execute(self, runs, timeout=600, stoppable=False):
        """One worker process executing the given runs."""
        with self.lock:
            self.n += 1
            d = os.path.join(self.work, "b%06d" % self.n)
        os.makedirs(d)
        spec = dict(prop=self.prop, tier=self.tier, runs=runs, known=[dict(id=k["id"], **{"class": k["match"].get("class"), "op": k["match"].get("op"), "pattern": k["match"].get("pattern")}) for k in self.known])
        with open(os.path.join(d, "spec.R"), "w") as fh:
            fh.write(r_lit(spec))
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "TZ": "UTC",
               "R_DEFAULT_PACKAGES": "NULL", "R_LIBS_USER": "/nonexistent", "TMPDIR": d, "R_ENABLE_JIT": "0"}
        if os.environ.get("SIM_DUMP"):
            env["SIM_DUMP"] = os.environ["SIM_DUMP"]
        cmd = ["Rscript", "--vanilla", os.path.join(simbuild.HERE, "R", "worker.R"), os.path.join(self.build, "lib"),
               os.path.join(self.build, "rt", "libsimrt.so"), self.image, "spec.R", "out.json"]
        if NORAND:
            cmd = ["setarch", "-R"] + cmd
        r = Result()
        t0 = time.time()
        with open(os.path.join(d, "log"), "w") as lg:
            p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=lg, stderr=lg, start_new_session=True)
            with self.lock:
                self.procs.add(p)
            last, last_cpu, hang = None, 0.0, False
            while True:
                try:
                    p.wait(0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if stoppable and self.stop.is_set():
                    kill(p); r.rc = None; r.harness = "stopped"
                    break
                st = read_status(d)
                cpu = cpu_time(p.pid)
                if st != last:
                    last, last_cpu = st, cpu
                elif cpu - last_cpu > HANG:
                    hang = True
                    kill(p)
                    break
                if time.time() - t0 > timeout:
                    kill(p); r.harness = "timeout"
                    break
            with self.lock:
                self.procs.discard(p)
        r.wall = time.time() - t0
        if r.harness:
            shutil.rmtree(d, ignore_errors=True)
            return r
        r.rc = p.returncode
        if os.environ.get("SIM_DUMP"):
            sys.stderr.write(open(os.path.join(d, "log"), errors="replace").read())
        try:
            for line in open(os.path.join(d, "out.json"), errors="replace"):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if o["t"] == "run":
                    r.runs.append(o)
                    if o.get("viol"):
                        r.viol = o["viol"]
                elif o["t"] == "end":
                    r.end = o
        except OSError:
            pass
        if r.viol is None and (hang or r.end is None or r.rc != 0):
            st = read_status(d)
            log = open(os.path.join(d, "log"), errors="replace").read()
            m = re.search(r"prop=\S+ run=(\S+) case=(\S+) variant=(\S+) op=(.*?) plan=(.*)", st)
            what = "hang" if hang else "crash"
            if m and st != "done":
                tail = [l for l in log.splitlines() if re.search(r"caught|cause|Error|error|terminat|corrupt|invalid|stack|abort|double free|Killed", l)]
                r.viol = dict({"class": what}, op=m.group(4), run=int(float(m.group(1))), case=int(m.group(2)), variant=int(m.group(3)),
                              scale=1, msg="%s with %s" % (what, m.group(5)),
                              text="[%s] %s: process %s (exit %s) with plan %s; %s" % (what, m.group(4), "made no progress" if hang else "died", r.rc, m.group(5), " | ".join(tail[-6:])[:500]))
            else:
                r.harness = "worker failed (exit %s, status %r): %s" % (r.rc, st, log[-2500:])
        shutil.rmtree(d, ignore_errors=True)
        return r

    def kill_all(self):
        self.stop.set()


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read_status(d):
    try:
        with open(os.path.join(d, "out.json.status"), "rb") as fh:
            return fh.read().split(b"\0")[0].decode(errors="replace")
    except OSError:
        return ""


def cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as fh:
            f = fh.read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def no_randomise():
    try:
        return subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        return False


NORAND = no_randomise()


def same(v, w):
    return v is not None and w is not None and v["class"] == w["class"] and v["op"] == w["op"]


def run_item(seed, case=None, **kw):
    r = {"seed": seed}
    if case is not None:
        r["cases"] = [dict({"i": case}, **kw)]
    return r


def gate_and_minimise(sim, batch_seeds, v, budget, say):
    """Find the smallest execution reproducing violation v. Returns (runs, result) or None."""
    t_end = time.time() + budget
    seed, case = v["run"], v["case"]
    before = batch_seeds[:batch_seeds.index(seed)] if seed in batch_seeds else []
    cands = []
    if case > 0:
        if v["variant"] > 0:
            cands.append([run_item(seed, case, variants=[v["variant"]])])
        cands.append([run_item(seed, case)])
    cands.append([run_item(seed)])
    cands.append([run_item(s) for s in before] + [run_item(seed)])
    best = None
    for c in cands:
        r = sim.execute(c)
        if same(r.viol, v):
            best = (c, r)
            break
        if time.time() > t_end:
            break
    if best is None:
        # a process-level failure may surface as another class when replayed
        for c in cands[::-1][:2]:
            r = sim.execute(c)
            if r.viol is not None and r.viol["class"] != "harness":
                best = (c, r); v = r.viol
                break
    if best is None:
        return None
    say("reproduced in a fresh process by %d run(s)" % len(best[0]))

    # smaller inputs
    def try_(c):
        nonlocal best
        if time.time() > t_end:
            return False
        r = sim.execute(c)
        if same(r.viol, v):
            best = (c, r)
            return True
        return False

    # drop earlier runs
    if len(best[0]) > 1:
        runs = best[0]
        k = (len(runs) - 1 + 1) // 2
        while k >= 1 and time.time() < t_end:
            i, changed = 0, False
            while i < len(runs) - 1:
                c = runs[:i] + runs[min(i + k, len(runs) - 1):]
                if try_(c):
                    runs = c; changed = True
                else:
                    i += k
                if time.time() > t_end:
                    break
            if not changed or k == 1:
                k //= 2
    # drop cases of the last run
    last = best[0][-1]
    if "cases" not in last and v["case"] > 0:
        cs = [{"i": i} for i in range(1, best[1].viol["case"] + 1)]
        if try_(best[0][:-1] + [{"seed": seed, "cases": cs}]):
            k = max(1, len(cs) // 2)
            while k >= 1 and time.time() < t_end:
                i, changed = 0, False
                while i < len(cs):
                    c = cs[:i] + cs[i + k:]
                    if c and try_(best[0][:-1] + [{"seed": seed, "cases": c}]):
                        cs = c; changed = True
                    else:
                        i += k
                    if time.time() > t_end:
                        break
                if not changed or k == 1:
                    k //= 2
    last = best[0][-1]
    if len(best[0]) == 1 and len(last.get("cases", [])) == 1:
        for sc in (0.02, 0.05, 0.1, 0.2, 0.35, 0.5, 0.75):
            if try_([run_item(seed, case, scale=sc)]):
                break
        w = best[1].viol
        item = best[0][0]["cases"][0]
        if w["variant"] > 0 and "variants" not in item:
            try_([run_item(seed, case, **dict({k: x for k, x in item.items() if k != "i"}, variants=[w["variant"]]))])
        # histories: drop steps
        item = dict(best[0][0]["cases"][0])
        n = best[1].viol.get("steps") or 0
        if n:
            drop = []
            keep = list(range(1, n + 1))
            k = max(1, n // 2)
            base = {a: b for a, b in item.items() if a not in ("i", "drop")}
            while k >= 1 and time.time() < t_end:
                i, changed = 0, False
                while i < len(keep):
                    d = sorted(set(drop) | set(keep[i:i + k]))
                    if try_([run_item(seed, case, **dict(base, drop=d))]):
                        drop = d; keep = keep[:i] + keep[i + k:]; changed = True
                    else:
                        i += k
                    if time.time() > t_end:
                        break
                if k == 1 and not changed:
                    break
                k = k // 2 if k > 1 else (1 if changed else 0)
    # gate: twice the same, with the same event hash
    a = sim.execute(best[0]); b = sim.execute(best[0])
    if not (same(a.viol, v) and same(b.viol, v)):
        return None
    if a.viol["class"] not in ("crash", "hang"):
        if a.viol["text"] != b.viol["text"] or [x["hash"] for x in a.runs] != [x["hash"] for x in b.runs]:
            say("note: the two replays differ in detail")
            return None
    return best[0], a


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--batch", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--survey", type=int, help="development: list up to N characters of every violation, do not stop")
    a = ap.parse_args(argv)
    t0 = time.time()
    say = lambda m: print("[%7.1fs] %s" % (time.time() - t0, m), flush=True)
    prop, tier = a.prop, "thorough" if a.tier == "thorough" else "quick"
    try:
        build, bsecs = simbuild.build()
    except RuntimeError as e:
        print(str(e))
        return 2
    say("VERIF_SEED=%d property=%s tier=%s build=%s (%.1fs) address randomisation %s" % (a.seed, prop, tier, os.path.basename(build), bsecs, "off" if NORAND else "ON (setarch refused)"))
    work = tempfile.mkdtemp(prefix="run", dir=simbuild.BUILD)
    sim = Sim(prop, tier, build, work)
    try:
        if a.replay:
            return replay(sim, a.replay, say)
        return explore(sim, a, say, t0, bsecs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(sim, path, say):
    f = json.load(open(path))
    sim.tier = f["tier"]
    r = sim.execute(f["runs"])
    if r.viol is None:
        say("the replay ran without a violation" + ("; " + r.harness if r.harness else ""))
        return 0 if not r.harness else 2
    print(r.viol["text"])
    ok = same(r.viol, f["violation"])
    say("replayed: %s" % ("same violation" if ok else "another violation than recorded"))
    print("VIOLATION property=%s replay=%s" % (sim.prop, path))
    return 1


def explore(sim, a, say, t0, bsecs):
    prop, tier = sim.prop, sim.tier
    pl = PLAN[prop][tier]
    nruns = a.runs or pl["runs"]
    per = a.batch or pl["batch"]
    seeds = [run_seed(a.seed, prop, i) for i in range(a.first, a.first + nruns)]
    batches = [seeds[i:i + per] for i in range(0, nruns, per)]
    cap = CAP[tier]
    t1 = time.time()
    done, failed, harness, skipped = [], None, None, 0
    it = iter(enumerate(batches))
    fails = []
    with ThreadPoolExecutor(NWORK) as ex:
        live = {}

        def launch():
            try:
                i, b = next(it)
            except StopIteration:
                return False
            live[ex.submit(sim.execute, [run_item(s) for s in b], 900 if tier == "quick" else 3600, True)] = (i, b)
            return True
        for _ in range(NWORK):
            launch()
        while live:
            fin, _ = wait(list(live), return_when=FIRST_COMPLETED)
            for f in fin:
                i, b = live.pop(f)
                r = f.result()
                if r.harness:
                    if r.harness != "stopped":
                        harness = r.harness; sim.kill_all()
                    continue
                done.append((i, b, r))
                if r.viol is not None:
                    if a.survey:
                        print("run", r.viol["run"], "case", r.viol["case"], "v", r.viol["variant"], r.viol["text"][:a.survey], "\n")
                        rest = b[b.index(r.viol["run"]) + 1:] if r.viol["run"] in b else []
                        if rest:
                            live[ex.submit(sim.execute, [run_item(s) for s in rest], 900, True)] = (i, rest)
                            continue
                    else:
                        fails.append((i, b, r))
                        sim.kill_all()
                        continue
                if not sim.stop.is_set():
                    if time.time() - t1 < cap:
                        launch()
                    else:
                        skipped = 1
    wall = time.time() - t1
    if harness and not fails:
        print(harness)
        say("the check itself failed")
        return 2
    if not fails and not any((r.end or {}).get("n_exec") for _, _, r in done):
        say("nothing was executed: the check gives no answer")
        return 2
    code, nviol, vinfo = 0, 0, None
    if fails:
        fails.sort(key=lambda z: z[0])
        nviol = len(fails)
        for i, b, r in fails:
            say("violation in run %d: %s" % (r.viol["run"], r.viol["text"][:1500]))
            sim.stop.clear()
            res = gate_and_minimise(sim, b, r.viol, MINIMISE[tier], say)
            if res is not None:
                break
            say("not reproduced in a fresh process")
        if res is None:
            say("a violation did not reproduce: the check gives no answer")
            code = 3
        else:
            runs, rr = res
            os.makedirs(os.path.join(VERIF, ".replays"), exist_ok=True)
            path = os.path.join(VERIF, ".replays", "%s-%d.json" % (prop, rr.viol["run"]))
            json.dump(dict(property=prop, tier=tier, verif_seed=a.seed, runs=runs, violation=rr.viol,
                           how="check %s --replay %s" % (prop, path)), open(path, "w"), indent=1)
            print("minimised: " + rr.viol["text"][:3000])
            print("replay spec: " + json.dumps(runs)[:600])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            code = 1
            vinfo = rr.viol["text"]
    known = {}
    for _, _, r in done:
        for k in (r.end or {}).get("known") or []:
            known[k["id"]] = known.get(k["id"], 0) + 1
    for k in sim.known:
        if code == 0:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = evidence(sim, a, done, wall, bsecs, nviol, skipped, known, len(batches), per)
    if a.survey:
        for k, v in sorted(ev["coverage"]["operations"].items()):
            print("   %-28s %s" % (k, list(v.values())))
    if not (a.no_evidence or a.survey):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))
    c = ev["coverage"]
    say("runs %d, executions %d, distinct behaviours %d, faults %s, %.0f runs/h%s" % (c["simulated_runs"], c["evaluations"], c["distinct_nontrivial"], json.dumps(c["faults_fired"]), c["runs_per_hour"], ", time cap reached" if skipped else ""))
    return code


def evidence(sim, a, done, wall, bsecs, nviol, skipped, known, nb, per):
    fired, cov, states, sites, knobs, samples = {}, {}, set(), set(), [0] * 16, []
    nexec = events = cbs = nruns = 0
    extra = {}
    hashes = []
    for i, b, r in sorted(done, key=lambda z: z[0]):
        nruns += len(r.runs)
        hashes += [x["hash"] for x in r.runs]
        e = r.end
        if not e:
            continue
        nexec += e["n_exec"]; events += e["events"]; cbs += e["callbacks"]
        for k, v in e["fired"].items():
            fired[k] = fired.get(k, 0) + int(v)
        for k, v in (e["cov"] or {}).items():
            c = cov.setdefault(k, [0, 0, 0])
            for j in range(3):
                c[j] += int(v[j])
        states.update(as_list(e["states"])); sites.update(as_list(e["sites"]))
        for j, v in enumerate(e["knob_reads"]):
            knobs[j] += int(v)
        for k, v in (e.get("extra") or {}).items():
            extra[k] = extra.get(k, 0) + v
        if len(samples) < 6:
            samples += as_list(e.get("samples"))[:2]
    meta = PLAN[sim.prop]
    return dict(
        property=sim.prop, tier=sim.tier, seed=a.seed, level=LEVEL, wall_s=round(wall + bsecs, 2), violations=nviol,
        coverage=dict(
            evaluations=nexec, distinct_nontrivial=len(states),
            rule="An evaluation is one execution of a generated operation (or history step) under one fault plan. Distinct and non-trivial counts "
                 "different (operation, outcome kind, hash of the sequence of intercepted allocation/evaluation/callback events) triples, so "
                 "executions that took the same path through the package count once. " + meta.get("rule", ""),
            samples=samples[:6],
            simulated_runs=nruns, run_seeds="sha256(VERIF_SEED/property/index), index %d..%d, %d per process" % (a.first, a.first + nruns - 1, per),
            seeds_per_hour=round(nruns / wall * 3600) if wall else 0, runs_per_hour=round(nruns / wall * 3600) if wall else 0,
            executions_per_hour=round(nexec / wall * 3600) if wall else 0,
            simulated_time="no clock in the package: simulated time is counted in events; %d events" % events,
            events=events, callbacks=cbs, faults_fired=fired, distinct_call_contexts=len(sites),
            tuning_constants_read=knobs[:8], operations={k: dict(cases=v[0], returned_value=v[1], ran_callbacks=v[2]) for k, v in sorted(cov.items())},
            probes=extra, known_findings_seen=known, time_cap_reached=bool(skipped),
            log_hash=hashlib.sha256(" ".join(map(str, hashes)).encode()).hexdigest()[:16],
            real_components="the package's C and R code, R itself, its allocator and collector",
            stub_components="timing of collections, outcome of allocations and evaluations, callbacks' behaviour, hash mixer and size thresholds (VCTRS_SIM), TZ and locale settings",
        ),
        assumptions=["R's own code is correct and behaves as R 4.3.3", "a collection can only happen at R API calls the package makes (intercepted at link time) or inside R code it evaluates",
                     "string marks, options, time zone, locale and loaded namespaces are the session state the package can change"])


def as_list(x):
    return x if isinstance(x, list) else [] if x is None else [x]
