"""python drive.py PROP SHARD NSHARDS SEED TIER TRACE STATUS [BEHAVIOURS]: record one trace of the real package."""
import json, os, sys, time, traceback

prop, shard, nshards, seed, tier, trace, status = sys.argv[1:8]
extra = sys.argv[8] if len(sys.argv) > 8 else None
st = {"error": None, "events": 0, "ops": {}, "hangs": 0, "truncated": False}


def save():
    with open(status, "w") as f:
        json.dump(st, f)


try:
    import core
    core.limit_memory()
    ctx = core.Ctx(prop, int(shard), int(nshards), int(seed), tier, trace)
    ctx.behaviours = extra
    budget = float(os.environ.get("VERIF_DRIVER_CPU", "200" if tier == "quick" else "3000"))
    ctx.rec.deadline = time.process_time() + budget
    import drivers, drivers2
    fn = getattr(drivers, prop, None) or getattr(drivers2, prop)
    try:
        fn(ctx)
    except core.Enough:
        st["truncated"] = True
    ctx.rec.close()
    st.update(events=ctx.rec.i, ops=ctx.rec.ops, hangs=ctx.rec.hangs, info=getattr(ctx, "info", {}))
except BaseException:
    st["error"] = traceback.format_exc()
    try:
        ctx.rec.close()
        st.update(events=ctx.rec.i, ops=ctx.rec.ops, hangs=ctx.rec.hangs)
    except BaseException:
        pass
save()
os._exit(0)
