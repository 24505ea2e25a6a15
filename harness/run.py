#!/usr/bin/env python3
"""run.py PROP [--tier quick|thorough] [--seed N] [--keep DIR]: decide one property.

1. The real package (from $BIBLEREF_SRC, default /repo/src) is driven and every call recorded (drive.py).
2. TLC checks every recorded trace against the specification (spec/Trace.tla or another trace module).
3. TLC checks the laws of the specification itself (design-level configurations), and for some properties generates
   the behaviours that step 1 replays.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the machinery failed."""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS, SPEC, OUT = (os.path.join(VERIF, d) for d in ("harness", "spec", "out"))
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

sys.path.insert(0, HARNESS)
from plan import PLAN          # what each property runs


class Machinery(Exception):
    pass


def tlc(module, cfg, work, env=None, workers=1, heap="2500m", timeout=800, args=(), tag="t"):
    """Run TLC; returns (exit code, output, stats)."""
    meta = os.path.join(work, "meta_" + tag)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m",
           "-Djava.io.tmpdir=" + work, "-cp", TLAJAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as t:
        rc, out = -9, (t.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT"
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    g, d = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    m = re.search(r"The number of states generated: ([\d,]+)", out)          # -simulate
    if m and not g:
        g = d = int(m.group(1).replace(",", ""))
    return rc, out, (g, d)


def events_of(path):
    with open(path) as f:
        for line in f:
            yield line


def check_trace(module, path, work, tag, timeout):
    """Validate one recorded trace; returns dict(bad=[(index, clauses)], states, transitions, error)."""
    res = dict(bad=[], states=0, transitions=0, error=None, broken=None)
    if not os.path.exists(path) or os.path.getsize(path) == 0:
        return res
    for attempt in (1, 2):
        rc, out, (g, d) = tlc(module + ".tla", module + ".cfg", work, {"TRACE": path}, tag=tag, timeout=timeout)
        res["states"], res["transitions"] = d, g
        res["bad"] = [(int(a), b) for a, b in re.findall(r'^"BAD (\d+) (.*)"$', out, re.M)]
        if rc == 0:
            return res
        if re.search(r"TLC threw an unexpected exception|was evaluating|Attempted to|The exception was a", out) \
                and not re.search(r"OutOfMemory|StackOverflow|GC overhead", out):
            # A recorded value that the specification cannot even compare with what it expects.
            res["error"] = out[-3000:]
            return res
        if res["bad"]:
            return res
    res["broken"] = "TLC exit %s\n%s" % (rc, out[-3000:])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep")
    ap.add_argument("--shards", type=int)
    ap.add_argument("--only", type=int, help="run one shard only (for experiments)")
    a = ap.parse_args()
    a.shards = a.shards or (8 if a.tier == "thorough" else 16)
    t0 = time.time()
    plan = PLAN[a.prop]
    work = a.keep or tempfile.mkdtemp(prefix="verif_%s_" % a.prop)
    os.makedirs(work, exist_ok=True)
    try:
        rc = decide(a, plan, work, t0)
    except Machinery as m:
        print("MACHINERY FAILURE (%s): %s" % (a.prop, m))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(a, plan, work, t0):
    thorough = a.tier == "thorough"
    deadline = 800 if not thorough else 6 * 3600
    laws, gens = plan.get("laws", []), plan.get("behaviours", [])
    module = plan.get("trace", "Trace")
    stats = dict(law_states=0, law_transitions=0, generated_behaviours=0)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    behaviours = None

    # behaviours of the specification to be replayed
    if gens:
        behaviours = os.path.join(work, "behaviours.jsonl")
        n = 0
        with open(behaviours, "w") as f:
            for gen in gens:
                mod, cfg, args, workers = gen["module"], gen["cfg"], list(gen.get("args", [])), gen.get("workers", 1)
                if thorough:
                    cfg, args = gen.get("tcfg", cfg), list(gen.get("targs", args))
                args = [x.replace("%SEED%", str(a.seed)) for x in args]
                rc, out, (g, d) = tlc(mod + ".tla", cfg, work, {"SEED": str(a.seed)}, workers=workers, heap="6g", args=args,
                                      timeout=deadline, tag="gen")
                if rc != 0:
                    raise Machinery("generating behaviours with %s: exit %s\n%s" % (mod, rc, out[-3000:]))
                stats["law_states"] += d
                stats["law_transitions"] += g
                for m in re.finditer(r'^"?@@(.*?)"?$', out, re.M):
                    f.write(m.group(1).replace('\\"', '"') + "\n")
                    n += 1
        stats["generated_behaviours"] = n
        if n == 0:
            raise Machinery("no behaviours were generated")

    def law(i):
        l = laws[i]
        cfg = l.get("tcfg", l["cfg"]) if thorough else l["cfg"]
        rc, out, (g, d) = tlc(l["module"] + ".tla", cfg, work, workers=1 if not thorough else 4, heap="3g", timeout=deadline,
                              tag="law%d" % i)
        return l, rc, out, g, d

    def shard(s):
        trace, status = (os.path.join(work, "%s_%d.%s" % (a.prop, s, x)) for x in ("ndjson", "json"))
        cmd = [PY, "-B", os.path.join(HARNESS, "drive.py"), a.prop, str(s), str(a.shards), str(a.seed), a.tier, trace, status]
        if behaviours:
            cmd.append(behaviours)
        try:
            p = subprocess.run(cmd, env=env, cwd=work, timeout=deadline, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            raise Machinery("driver %d took more than %d s" % (s, deadline))
        if os.path.exists(status):
            st = json.load(open(status))
        else:
            st = dict(error="the driver process died (exit %s)\n%s" % (p.returncode, p.stdout.decode("utf8", "replace")[-3000:]),
                      events=0, ops={}, hangs=0, truncated=True)
        if st["error"] and os.path.exists(trace):      # keep only whole lines
            data = open(trace).read()
            open(trace, "w").write(data[:data.rfind("\n") + 1])
        return s, trace, st, check_trace(module, trace, work, "s%d" % s, deadline)

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        shards = [ex.submit(shard, s) for s in (range(a.shards) if a.only is None else [a.only])]
        lawf = [ex.submit(law, i) for i in range(len(laws) if a.only is None else 0)]
        results = [f.result() for f in shards]
        for f in lawf:
            l, rc, out, g, d = f.result()
            stats["law_states"] += d
            stats["law_transitions"] += g
            if rc != 0:
                raise Machinery("design-level check %s/%s failed: exit %s\n%s" % (l["module"], l["cfg"], rc, out[-3000:]))

    findings, ops, segments, states, trans, events, samples = [], {}, 0, 0, 0, 0, []
    truncated, distinct, info = False, set(), {}
    for s, trace, st, r in results:
        if r["broken"]:
            raise Machinery("shard %d: %s" % (s, r["broken"]))
        truncated |= st["truncated"]
        for o, n in st["ops"].items():
            ops[o] = ops.get(o, 0) + n
        for k, v in (st.get("info") or {}).items():
            info[k] = info.get(k, 0) + v
        events += st["events"]
        states += r["states"]
        trans += r["transitions"]
        if st["error"]:
            findings.append(dict(shard=s, clause="the driver could not go on", detail=st["error"]))
        if r["error"]:
            findings.append(dict(shard=s, clause="a recorded value is outside the specification's values", detail=r["error"]))
        want = dict(r["bad"])
        state = None
        if os.path.exists(trace):
            for line in events_of(trace):
                if line.find('"@reset"') >= 0:
                    segments += 1
                m = re.search(r'"i":(\d+)\}?$', line.strip())
                i = int(m.group(1)) if m else -1
                distinct.add(hash(line[:line.rfind(',"i":')]))
                if len(samples) < 6 and i in (7, 77, 777) and len(line) < 3000:
                    samples.append(json.loads(line))
                if want:
                    e = json.loads(line)
                    if e["o"] == "@reset":
                        state = dict(config=e.get("c"), seps=e.get("seps"), flags=e.get("n"), history=[])
                    elif e["o"] == "@flags":
                        state["flags"] = e["n"]
                    elif e["o"].startswith("@") and state is not None:
                        state["history"].append(e)
                    if i in want:
                        findings.append(dict(shard=s, clause=want[i], event=e,
                                             state={k: (v[-40:] if k == "history" else v) for k, v in (state or {}).items()}))
    known = []
    kf = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("known", []) if k["property"] == a.prop]
    fresh = []
    seen = set()
    for f in findings:
        k = next((k for k in known if matches(k["match"], f)), None)
        if k is None:
            fresh.append(f)
        else:
            seen.add(k["id"])
    for k in known:
        if k["id"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))

    wall = time.time() - t0
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=plan["level"], wall_s=round(wall, 2), violations=len(fresh),
              coverage=dict(states=states + stats["law_states"], transitions=trans + stats["law_transitions"],
                            traces_validated_against_impl=segments, recorded_calls=sum(ops.values()), distinct_events=len(distinct),
                            design_level_states=stats["law_states"], generated_behaviours=stats["generated_behaviours"],
                            calls_by_operation=ops, truncated=truncated, samples=samples, **info),
              assumptions=plan.get("assumptions", []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d calls in %d traces validated, %d+%d states, %.1f s" %
          (a.prop, a.tier, a.seed, sum(ops.values()), segments, states, stats["law_states"], wall))
    if sum(ops.values()) == 0 and not fresh:
        raise Machinery("nothing was recorded")
    if fresh:
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "replay_%s.json" % a.prop)
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, seed=a.seed, tier=a.tier, count=len(fresh), rerun="python3 harness/run.py %s --tier %s --seed %d"
                           % (a.prop, a.tier, a.seed), findings=fresh[:40]), f, indent=1)
        for x in fresh[:8]:
            print("  %s: %s" % (x["clause"], json.dumps(x.get("event") or x.get("detail"))[:600]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    return 0


def matches(pattern, finding):
    """A known finding is identified by the fields of the recorded call that fails."""
    e = finding.get("event") or {}
    return all(e.get(k) == v for k, v in pattern.items())


if __name__ == "__main__":
    main()
