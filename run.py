#!/usr/bin/env python3
"""Runs the check of one property:  run.py C04 [--tier quick|thorough] [--keep] [--only JOB]

1. compiles /repo's library and the conformance driver from /repo's working tree,
2. model-checks the design configurations of the specification (TLC, exhaustive, small scope),
3. where the property is about histories: has TLC generate behaviours of the specification,
4. runs the driver, which records traces of the real code (and replays generated behaviours),
5. has TLC judge every trace against the specification (trace validation).
Exit 0: accepted.  Exit 1 + VIOLATION line: a trace was rejected, twice.  Exit 2: the check failed.
"""
import sys, os, re, json, glob, shutil, subprocess, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8
sys.path.insert(0, VERIF)
from checks import CHECKS

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

# ------------------------------------------------------------------ build
def lib_sources(work):
    src = []
    for f in sorted(glob.glob(REPO + "/lib/*.cpp")):
        if os.path.exists(f + ".cmake"):
            continue
        src.append(f)
    for f in sorted(glob.glob(REPO + "/lib/*.cpp.cmake")):
        txt = open(f, encoding="utf-8", errors="surrogateescape").read().replace("@PROJECT_SOURCE_DIR@", REPO)
        o = os.path.join(work, os.path.basename(f)[:-len(".cmake")])
        open(o, "w", encoding="utf-8", errors="surrogateescape").write(txt)
        src.append(o)
    return src

def build(chk, work, variant, flags):
    """compile library and driver; returns path of the executable"""
    od = os.path.join(work, "obj-" + variant)
    os.makedirs(od)
    base = ["g++", "-std=c++11", "-DNDEBUG", "-DMODE_TI", "-w", "-I" + REPO + "/include", "-I" + DRV] + flags
    jobs = []
    drv = [(os.path.join(DRV, d) if isinstance(d, str) else (os.path.join(DRV, d[0]), d[1])) for d in chk["drivers"]]
    for d in drv:
        f, extra = d if isinstance(d, tuple) else (d, [])
        jobs.append((f, extra + [chk.get("opt", "-O1")]))
    # a driver source may be split in parts: "x.cpp#3" compiles x.cpp three times with -DPART=0..2
    ex = []
    for f, extra in jobs:
        if "#" in f:
            f, n = f.split("#")
            for i in range(int(n)):
                ex.append((f, extra + ["-DPART=%d" % i, "-DPARTS=%s" % n], "p%d" % i))
        else:
            ex.append((f, extra, ""))
    ex.append((os.path.join(DRV, "tr_main.cpp"), ["-O1"], ""))
    for f in lib_sources(work):
        ex.append((f, ["-O1"], "lib"))
    objs, errs = [], []
    def one(t):
        f, extra, tag = t
        o = os.path.join(od, tag + os.path.basename(f) + ".o")
        r = sh(base + extra + ["-c", f, "-o", o])
        if r.returncode != 0:
            errs.append((f, r.stdout[-4000:]))
        return o
    # largest sources first
    with ThreadPoolExecutor(NCPU) as p:
        objs = list(p.map(one, ex))
    if errs:
        raise CheckError("compilation failed: %s\n%s" % errs[0])
    exe = os.path.join(work, "driver-" + variant)
    r = sh(["g++", "-o", exe] + objs + ["-ldivsufsort", "-ldivsufsort64", "-lpthread"] + [f for f in flags if f.startswith("-fsanitize")] + chk.get("ldflags", []))
    if r.returncode != 0:
        raise CheckError("link failed\n" + r.stdout[-4000:])
    shutil.rmtree(od)
    return exe

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, meta, env=None, workers=1, extra=(), mem="2g", timeout=780, fast=True):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC", "-XX:CICompilerCount=2"] if workers == 1 else ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC"]
    cmd += ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    cmd += list(extra) + [module]
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timeout: %s %s" % (module, cfg))
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout

def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def mc_run(prop, i, mc, work, tier):
    module, cfg = mc["module"], mc["cfg"]
    if tier == "thorough" and mc.get("cfg_thorough"):
        cfg = mc["cfg_thorough"]
    t = time.time()
    rc, out = tlc(module, cfg, os.path.join(work, "mc%d" % i), workers=mc.get("workers", 2), mem="4g",
                  env=mc.get("env"), timeout=mc.get("timeout", 600), extra=mc.get("extra", ()))
    if mc.get("expect"):      # a design the specification has to refuse: shows that the invariants bite
        if ("Invariant %s is violated" % mc["expect"]) not in out:
            raise CheckError("%s/%s was expected to violate %s\n%s" % (module, cfg, mc["expect"], out[-3000:]))
    elif rc != 0 or "No error has been found" not in out:
        raise CheckError("model checking of %s/%s failed (the specification itself is wrong)\n%s" % (module, cfg, out[-3000:]))
    g, d = tlc_counts(out)
    return dict(module=module, cfg=cfg, generated=g, distinct=d, wall_s=round(time.time() - t, 1))

REJ = re.compile(r'<<"REJECT", (\d+)')

def validate(chk, shard, work, tag):
    """returns (rejected line numbers, fatal_text or None, states generated)"""
    rc, out = tlc(chk["trace"], chk.get("trace_cfg", chk["trace"].replace(".tla", ".cfg")),
                  os.path.join(work, "meta-" + tag), env={"TRACE": shard}, timeout=chk.get("tlc_timeout", 780))
    rej = sorted(set(int(x) for x in REJ.findall(out)))
    g, d = tlc_counts(out)
    if rc == 0 and "No error has been found" in out and not rej:
        return [], None, g
    if rej and re.search(r"TraceAccepted|POSTCONDITION|[Pp]ostcondition", out):
        return rej, None, g
    # an evaluation error: the logged value has a shape the specification cannot even compare
    m = re.findall(r"^l = (\d+)|^/\\ l = (\d+)", out, re.M)
    bad = re.search(r"Attempted to|The first argument of|out of (the )?domain|not enumerable|was not in the domain|Overflow|overflow", out)
    if bad and m and "OutOfMemory" not in out and "StackOverflow" not in out:
        last = max(int(a or b) for a, b in m)
        return rej + [last], None, g
    return rej, out[-3500:], g

def make_shards(files, work, k, tag):
    fs = sorted(((os.path.getsize(f), f) for f in files), reverse=True)
    k = max(1, min(k, len(fs)))
    load = [0] * k
    lst = [[] for _ in range(k)]
    for s, f in fs:
        i = load.index(min(load))
        load[i] += s + 200
        lst[i].append(f)
    shards = []
    for i in range(k):
        p = os.path.join(work, "shard-%s-%d.ndjson" % (tag, i))
        owners = []
        with open(p, "wb") as o:
            for f in sorted(lst[i]):
                b = open(f, "rb").read()
                o.write(b)
                owners += [f] * b.count(b"\n")
        shards.append((p, owners))
    return shards

def run_driver(exe, work, tag, seed, tier, inputs=None, only=None, limit=600):
    od = os.path.join(work, "tr-" + tag)
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    env = dict(os.environ)
    env["MALLOC_PERTURB_"] = "165"
    if only:
        env["TR_ONLY"] = only
    else:
        env.pop("TR_ONLY", None)
    pre = []
    if "san" in tag:   # a sanitizer runtime may be unable to start with randomised addresses
        pre = next((p for p in ([], ["setarch", "-R"]) if "usage" in sh(p + [exe], env=env).stdout), None)
        if pre is None:
            return None, od
    try:
        r = sh(pre + [exe, od, str(seed), tier, str(NCPU)] + ([inputs] if inputs else []), env=env, timeout=limit)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timeout")
    if r.returncode != 0:
        raise CheckError("driver failed (%d)\n%s" % (r.returncode, r.stdout[-2000:]))
    return sorted(glob.glob(od + "/j*.ndjson")), od

def judge(chk, files, work, tag, k=NCPU):
    shards = make_shards(files, work, k, tag)
    rejected, events, gen = [], 0, 0
    def one(t):
        i, (p, owners) = t
        return validate(chk, p, work, "%s-%d" % (tag, i))
    with ThreadPoolExecutor(NCPU) as pool:
        res = list(pool.map(one, list(enumerate(shards))))
    for (p, owners), (rej, fatal, g) in zip(shards, res):
        gen += g
        events += len(owners)
        if fatal is not None:
            raise CheckError("trace checker failed on %s\n%s" % (p, fatal))
        if rej:
            lines = open(p).read().split("\n")
            for n in rej:
                if n < 1 or n > len(owners):
                    continue
                case = ""
                for q in range(n - 1, -1, -1):
                    if lines[q].startswith(('{"op":"case"', '{"op":"job"')):
                        case = lines[q]
                        break
                job = ""
                for q in range(n - 1, -1, -1):
                    if lines[q].startswith('{"op":"job"'):
                        job = json.loads(lines[q])["name"]
                        break
                rejected.append(dict(file=owners[n - 1], job=job, case=case, event=lines[n - 1]))
    for p, _ in shards:
        os.unlink(p)
    return rejected, events, gen

# ------------------------------------------------------------------ known findings
def known_for(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get("findings", []) if x.get("property") == prop and x.get("status") == "open"]

def matches(k, r):
    ev = r["event"]
    return (all(s in ev for s in k.get("event_contains", [])) and
            all(s in r["job"] for s in k.get("job_contains", [])) and
            all(s in r["case"] for s in k.get("case_contains", [])) and
            (k.get("event_contains") or k.get("job_contains") or k.get("case_contains")))

# ------------------------------------------------------------------ main
def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1] if "--only" in args else None
    keep = "--keep" in args
    verbose = "-v" in args
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    phases = {}
    def phase(n, t):
        phases[n] = round(time.time() - t, 1)
    try:
        pool = ThreadPoolExecutor(4)
        mcs = []
        if not only and "--nomc" not in args:
            for i, mc in enumerate(chk.get("mc", [])):
                mcs.append(pool.submit(mc_run, prop, i, mc, work, tier))
        # behaviours generated from the specification
        inputs = None
        gen_info = []
        gen = chk.get("gen")
        gf = None
        if gen:
            gf = pool.submit(generate, gen, work, tier, seed)
        t = time.time()
        exes = []
        vs = chk.get("variants", [("std", [])])
        with ThreadPoolExecutor(len(vs)) as bp:
            for (v, flags), x in zip(vs, list(bp.map(lambda t: build(chk, work, t[0], t[1]), vs))):
                exes.append((v, x))
        phase("build", t)
        if gf:
            t = time.time()
            inputs, gen_info = gf.result()
            phase("generate", t)
        rejected, events, gstates, files_n = [], 0, 0, 0
        samples, opcount, cases = [], {}, 0
        alljobs = []
        for v, exe in exes:
            t = time.time()
            files, od = run_driver(exe, work, v, seed, tier, inputs, only)
            if files is None:
                print("note: variant %s cannot run here" % v)
                continue
            if verbose:
                print(sorted(((float(l.split()[1]), l.split()[2]) for l in open(od + "/jobs.txt")), reverse=True)[:8])
            phase("driver-" + v, t)
            if not files:
                raise CheckError("driver produced no trace")
            for f in files:
                with open(f) as fh:
                    for ln in fh:
                        m = re.match(r'\{"op":"([^"]*)"', ln)
                        op = m.group(1) if m else "?"
                        opcount[op] = opcount.get(op, 0) + 1
            for f in files[:: max(1, len(files) // 3)][:3]:
                samples.append([x[:300] for x in open(f).read().split("\n")[:4] if x])
            t = time.time()
            rej, ev, g = judge(chk, files, work, v)
            phase("tlc-" + v, t)
            for r in rej:
                r["variant"] = v
                r["exe"] = exe
            rejected += rej
            events += ev
            gstates += g
            files_n += len(files)
        t = time.time()
        mc_res = [m.result() for m in mcs]
        phase("mc-wait", t)
        # ---- confirm rejections
        known = known_for(prop)
        hit, fresh = {}, []
        for r in rejected:
            ks = [k for k in known if matches(k, r)]
            if ks:
                hit[ks[0]["id"]] = ks[0]
            else:
                fresh.append(r)
        confirmed = []
        seen = set()
        for r in sorted(fresh, key=lambda r: "no answer within" in r["event"]):      # those that hung last
            key = (r["variant"], r["job"])
            if key in seen:
                continue
            seen.add(key)
            if len(confirmed) >= 3 or len(seen) > 6 or (confirmed and time.time() - t0 > 150):
                break
            for attempt in range(chk.get("confirm_attempts", 1)):
                if attempt and time.time() - t0 > 700:
                    break
                files, _ = run_driver(r["exe"], work, "confirm", seed, tier, inputs, only=r["job"])
                rej2, _, _ = judge(chk, files, work, "confirm", k=1)
                rej2 = [x for x in rej2 if not any(matches(k, x) for k in known)]
                if rej2:
                    r2 = next((x for x in rej2 if x["event"] == r["event"]), rej2[0])
                    r2["variant"] = r["variant"]
                    confirmed.append(r2)
                    break
        for k in known:
            if k["id"] in hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        st = sum(m["distinct"] for m in mc_res) + gstates
        trn = sum(m["generated"] for m in mc_res) + events
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=st, transitions=trn, traces_validated_against_impl=files_n,
                                events_validated=events, events_by_operation=opcount,
                                design_models=mc_res, generated_behaviours=gen_info,
                                rejected_events=len(rejected), phases_s=phases,
                                samples=samples[:4]),
                  assumptions=chk.get("assumptions", []),
                  violations=len(confirmed), wall_s=round(time.time() - t0, 1))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        if not only:
            json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
        if verbose:
            print(json.dumps(dict(phases=phases, ops=opcount, events=events, files=files_n, mc=mc_res)))
            for r in rejected[:20]:
                print("REJ", r["job"], "|", r["case"][:200], "|", r["event"][:400])
            print(len(rejected), "rejected")
        if confirmed:
            od = VERIF + "/out"
            os.makedirs(od, exist_ok=True)
            p = od + "/%s-replay.json" % prop
            json.dump(dict(property=prop, seed=seed, tier=tier,
                           replay_cmd="python3 %s/run.py %s --only '%s' -v" % (VERIF, prop, confirmed[0]["job"]),
                           rejections=[{k: v[:20000] if isinstance(v, str) else v for k, v in r.items() if k != "file"} for r in confirmed]),
                      open(p, "w"), indent=1)
            for r in confirmed[:1]:
                print("rejected by the specification: job %s\n  case %s\n  event %s" % (r["job"], r["case"][:400], r["event"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        if fresh:
            raise CheckError("a rejection was not repeated: %s" % fresh[0]["event"][:500])
        miss = [o for o in chk.get("must_ops", []) if not opcount.get(o)]
        if miss and not only:
            raise CheckError("vacuous run: no event of kind %s" % miss)
        print("property %s held: %d events in %d traces accepted, %d model states, %.1f s %s" % (prop, events, files_n, st, time.time() - t0, phases))
        return 0
    finally:
        if keep:
            print("work:", work)
        else:
            shutil.rmtree(work, ignore_errors=True)

def generate(gen, work, tier, seed):
    """TLC prints behaviours as lines  GEN {json}; they become the driver's input"""
    if not isinstance(gen, list):
        gen = [gen]
    p = os.path.join(work, "behaviours.ndjson")
    info = []
    with open(p, "w") as o:
        for i, g in enumerate(gen):
            num = g.get("num_thorough", g["num"] * 8) if tier == "thorough" else g["num"]
            extra = ["-simulate", "num=%d" % num, "-depth", str(g["depth"]), "-seed", str(seed)] if g.get("simulate", True) else []
            rc, out = tlc(g["module"], g["cfg"], os.path.join(work, "gen%d" % i), extra=extra, timeout=300)
            n = 0
            seen = set()     # the last step is printed for every candidate: keep one
            for m in re.finditer(r'^"?GEN (.*?)"?$', out, re.M):
                s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
                key = s[:s.rfind("<<")] if "<<" in s else s
                if key in seen:
                    continue
                seen.add(key)
                s = g.get("tag", "") + s
                o.write(s + "\n")
                n += 1
            if n == 0:
                raise CheckError("no behaviour generated by %s\n%s" % (g["module"], out[-2000:]))
            info.append(dict(module=g["module"], cfg=g["cfg"], behaviours=n))
    return p, info

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR:", e)
        sys.exit(2)
