#!/usr/bin/env python3
"""Runner of the checks.  mxv_run.py <property>:
  1. TLC model-checks the design specifications of the property (while 2. builds)
  2. cargo builds the harness against /repo's working tree
  3. [TLC writes the behaviours to replay]  the harness drives the real code and records what it did
  4. TLC checks every recorded trace against the specification (8 chunks in parallel)
Exit 0 / 1 + VIOLATION line / 2 for anything that is not an answer."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plans import PLANS
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"), CARGO_NET_OFFLINE="true",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", VERIF_SEED=str(SEED), VERIF_TIER=TIER, MXV_DICT=V + "/spec/dict.json",
           RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None); ENV.pop("CARGO_TARGET_DIR", None)
HARNESS = V + "/harness/target/debug/mxv"

class Tool(Exception): pass

def build():
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=V + "/harness", env=ENV, capture_output=True, text=True)
    if p.returncode: raise Tool("harness build failed:\n" + p.stderr[-3000:])

def tlc(module, cfg, work, tag, env=None, workers=1, timeout=600, extra=()):
    meta = f"{work}/meta-{tag}"
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx3g", f"-Djava.io.tmpdir={work}",
           "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", f"{V}/spec/{cfg}.cfg", *extra, f"{V}/spec/{module}.tla"]
    try:
        p = subprocess.run(cmd, env=dict(ENV, **(env or {})), capture_output=True, text=True, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        raise Tool(f"TLC {module}/{cfg} timed out")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    o = p.stdout + p.stderr
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    r = {"out": o, "rc": p.returncode, "generated": int(m[1].replace(",", "")) if m else 0, "distinct": int(m[2].replace(",", "")) if m else 0,
         "ok": "No error has been found" in o and p.returncode == 0}
    return r

def main(pid):
    plan = PLANS[pid]
    work = tempfile.mkdtemp(prefix=f"mxv-{pid}-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None)
    os.makedirs(V + "/evidence", exist_ok=True)
    for f in glob.glob(f"{V}/evidence/{pid}.*"): os.remove(f)
    try:
        return run(pid, plan, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(pid, plan, work):
    errs, models, lock = [], [], threading.Lock()
    def model(mod, cfg, opt):
        try:
            r = tlc(mod, cfg, work, "m-" + cfg, workers=opt.get("workers", 2), timeout=850 if not THOROUGH else 20000, env=opt.get("env"), extra=opt.get("extra", ()))
            if not r["ok"]: raise Tool(f"design model {mod}/{cfg} failed:\n" + "\n".join(r["out"].splitlines()[-40:]))
            with lock: models.append({"module": mod, "config": cfg, "states_generated": r["generated"], "distinct_states": r["distinct"]})
        except Exception as e: errs.append(e)
    ths = []
    vec = {}
    for m in plan.get("models", []):
        if m[2].get("thorough") and not THOROUGH: continue
        if m[2].get("quick_only") and THOROUGH: continue
        ths.append(threading.Thread(target=model, args=m))
    def gen(mod, cfg, name, big=None):
        if THOROUGH and big: cfg = big
        try:
            f = f"{work}/{name}.ndjson"
            r = tlc(mod, cfg, work, "g-" + cfg, workers=1, env={"MXV_OUT": f}, timeout=850 if not THOROUGH else 7200)
            if not r["ok"] or not os.path.exists(f): raise Tool(f"behaviour generation {mod}/{cfg} failed:\n" + r["out"][-3000:])
            with lock:
                vec[name] = sum(1 for _ in open(f))
                models.append({"module": mod, "config": cfg, "states_generated": r["generated"], "distinct_states": r["distinct"], "behaviours_written": vec[name]})
        except Exception as e: errs.append(e)
    gths = [threading.Thread(target=gen, args=g if not callable(g) else g(THOROUGH)) for g in plan.get("gen", [])]
    for t in ths + gths: t.start()
    try: build()
    except Exception as e: errs.append(e)
    for t in gths: t.join()
    if errs:
        for t in ths: t.join()
        raise errs[0]
    # drive the real code
    stats, viol, known, traces, samples = {}, [], set(), 0, []
    tstates = 0
    for mode, tracemod in plan["runs"]:
        tdir = f"{work}/{mode}"
        try:
            p = subprocess.run([HARNESS, mode, tdir, work], env=ENV, capture_output=True, text=True, timeout=800 if not THOROUGH else 20000, cwd=work)
        except subprocess.TimeoutExpired:
            raise Tool(f"harness {mode} timed out")
        if p.returncode in (77, 101, -4, -6, -7, -8, -11):
            # 77: a call did not return; 101: the library refused or failed where the drive depends on it (never on the pinned tree);
            # signals: the process running the library died (stack overflow, abort). Each is an observation about the library.
            what = {77: "a call did not return", 101: "the library failed where every message depends on it"}.get(p.returncode, "process died")
            rp = f"{V}/evidence/{pid}.replay.json"
            json.dump({"property": pid, "mode": mode, "what": what, "exit": p.returncode, "stderr": p.stderr[-3000:]}, open(rp, "w"), indent=1)
            viol.append((mode, what + ": " + p.stderr[-600:], rp)); continue
        if p.returncode: raise Tool(f"harness {mode} exit {p.returncode}: {p.stderr[-2000:]}")
        stats[mode] = json.loads(p.stdout.strip().splitlines()[-1])
        res = {}
        def check(f):
            try: res[f] = tlc(tracemod, plan.get("cfg", {}).get(tracemod, tracemod), work, "t-" + os.path.basename(f), env={"MXV_TRACE": f}, timeout=850 if not THOROUGH else 20000)
            except Exception as e: errs.append(e)
        files = sorted(f for f in glob.glob(f"{tdir}/t.*.ndjson") if os.path.getsize(f))
        sem = threading.Semaphore(8)
        def guarded(f):
            with sem: check(f)
        cts = [threading.Thread(target=guarded, args=(f,)) for f in files]
        for t in cts: t.start()
        for t in cts: t.join()
        if errs: raise errs[0]
        for f in files:
            r = res[f]
            for m in re.finditer(r'<<\s*"KNOWN",\s*"([^"]+)"', r["out"]): known.add(m[1])
            rej = re.search(r'<<"REJECTED", (\d+)>>', r["out"])
            lines = None
            if rej:
                lines = open(f).read().split("\n")
                k = int(rej[1])
                ev = lines[k - 1] if k <= len(lines) else ""
                rp = f"{V}/evidence/{pid}.replay.json"
                if not viol:
                    # what the event's meaning depends on: the facts of the trace, and its own history
                    before = []
                    for j in range(k - 2, -1, -1):
                        b = json.loads(lines[j])
                        if b.get("a") in ("Facts", "Alone"): before.insert(0, b); break
                        if tracemod == "TracePipeline" and not any(x.get("a") == "Start" for x in before): before.insert(0, b)
                    json.dump({"property": pid, "spec": tracemod, "event_number": k, "event": json.loads(ev) if ev else None, "before": before,
                               "how": f"bin/explain evidence/{pid}.replay.json runs TLC on this event (and those it depends on); the event is what the code did, spec/{tracemod}.tla says what it may do"}, open(rp, "w"))
                why = re.findall(r'<<\s*"WHY",(.*?)>>\n(?=[^ <{]|$)', r["out"], re.S)
                viol.append((mode, ev[:300] + ("\n   why:" + " ".join(why[-1].split())[:1500] if why else ""), rp))
                traces += k - 1; tstates += k
            elif not r["ok"]:
                raise Tool(f"TLC {tracemod} on {os.path.basename(f)} failed:\n" + "\n".join(r["out"].splitlines()[-30:]))
            else:
                n = sum(1 for _ in open(f)); traces += n; tstates += r["distinct"]
            if len(samples) < 3:
                with open(f) as fh: samples.append(fh.readline()[:1500])
        shutil.rmtree(tdir, ignore_errors=True)
    for t in ths: t.join()
    if errs: raise errs[0]
    # known findings: only what the committed file lists
    listed = {}
    for line in open(V + "/known-findings.txt"):
        m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", line)
        if m and m[1] == pid: listed[m[2]] = m[3]
    for k in sorted(known):
        if k not in listed:
            viol.append(("known", f"{k} is not a listed finding", f"{V}/known-findings.txt"))
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": sum(m["distinct_states"] for m in models) + tstates, "transitions": sum(m["states_generated"] for m in models) + tstates,
                       "traces_validated_against_impl": traces, "design_models": models, "harness": stats, "behaviours_from_spec": vec, "samples": samples,
                       "known_findings_observed": sorted(known)},
          "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for k in sorted(k for k in known if k in listed): print(f"KNOWN-FINDING: property={pid} {listed[k]}")
    if viol:
        for mode, e, rp in viol[:5]: print(f"rejected [{mode}]: {e}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(viol[0][2], V)}")
        return 1
    print(f"{pid}: held; {traces} recorded events accepted by the specification, {len(models)} design models checked, {ev['wall_s']} s")
    return 0

if __name__ == "__main__":
    try: sys.exit(main(sys.argv[1]))
    except Tool as e: print("ERROR:", e, file=sys.stderr); sys.exit(2)
    except Exception as e:
        import traceback; traceback.print_exc(); sys.exit(2)
