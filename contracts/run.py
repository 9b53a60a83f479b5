"""Runs jobs in worker processes."""
import sys, os, time, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def all_jobs():
    import importlib
    out = []
    for m in ("jobs_io", "jobs_more", "jobs_22"):
        try: out += importlib.import_module(m).JOBS
        except ModuleNotFoundError as e:
            if e.name != m: raise
    return out


def one(args):
    """run one job; picklable result"""
    i, ext, budget, keep = args
    from base import Ctx, Unsupported, vc
    j = all_jobs()[i]
    t = time.time()
    vc.DEADLINE[0] = t + budget
    vc.KEEP_SMT2[0] = keep
    q0, s0 = vc.STATS.queries, vc.STATS.time
    res = {"job": j["name"], "ext": ext, "status": "ok", "why": ""}
    c = None
    try:
        c = Ctx(j["name"], ext)
        j["fn"](c)
    except Unsupported as e:
        res["status"] = "unsupported"; res["why"] = str(e)[:300] or repr(e)
    except RecursionError:
        res["status"] = "unsupported"; res["why"] = "recursion"
    except MemoryError:
        res["status"] = "unsupported"; res["why"] = "memory"
    except Exception as e:
        res["status"] = "unsupported"; res["why"] = "internal: %r" % (e,); res["trace"] = traceback.format_exc()[-3000:]
    res["obl"] = list(c.ex.obl.values()) if c else []
    res["fns"] = sorted(k for k in c.ex.inlined if k.startswith("mshio::") or " mshio::" in k.split("(")[0]) if c else []
    res["lib"] = sorted(c.ex.lib_used) if c else []
    res["contracts"] = sorted(c.ex.used_contracts) if c else []
    res["loops"] = sorted(set((l[0], l[1]) for l in c.ex.loop_log)) if c else []
    res["queries"] = vc.STATS.queries - q0; res["solver"] = round(vc.STATS.time - s0, 2); res["time"] = round(time.time() - t, 1)
    res["trial"] = sorted(c.ex.trialfail)[:20] if c else []
    res["smt2"] = list(vc.SMT2) if keep else []
    del vc.SMT2[:]
    return res


def _child(conn, x):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try: conn.send(one(x))
    finally: conn.close()


def schedule(todo, procs=int(os.environ.get("VP_PROCS", "8"))):
    """yields the result of every job; a job whose process dies or overruns is reported as not completed"""
    from multiprocessing.connection import wait
    todo = list(todo); live = {}
    while todo or live:
        while todo and len(live) < procs:
            x = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b, x), daemon=True); p.start(); b.close()
            live[a] = (p, x, time.time() + x[2] + 60)
        for c in wait(list(live), timeout=2):
            p, x, _ = live.pop(c)
            try: r = c.recv()
            except (EOFError, OSError): p.join(); r = dead(x, "the process ended (code %s)" % p.exitcode)
            c.close(); p.join()
            yield r
        for c, (p, x, end) in list(live.items()):
            if time.time() > end:
                live.pop(c); p.kill(); p.join(); c.close()
                yield dead(x, "the solver did not return in time")


def dead(x, why):
    return {"job": all_jobs()[x[0]]["name"], "ext": x[1], "status": "unsupported", "why": why[:300], "obl": [], "fns": [], "lib": [], "contracts": [], "loops": [],
            "queries": 0, "solver": 0, "time": 0, "smt2": [], "trial": []}


def main():
    pat = sys.argv[1:]
    js = all_jobs()
    todo = [(i, e, 500, False) for i, j in enumerate(js) for e in j["exts"] if not pat or any(p in j["name"] or p in j["props"] for p in pat)]
    from base import ir
    for e in set(x[1] for x in todo): ir.load(e)
    if 1:
        for r in schedule(todo):
            bad = [o for o in r["obl"] if o["failed"] or o["unknown"]]
            n = len(r["obl"])
            print("%-34s %s %6.1fs q=%d  obl=%d bad=%d %s %s" % (r["job"], "ext" if r["ext"] else "   ", r["time"], r["queries"], n, len(bad), r["status"], r["why"]), flush=True)
            if "trace" in r: print(r["trace"][-900:])
            for o in bad[:6]: print("     BAD", o["kind"], o["loc"], o["what"], o["failed"], o["unknown"], "exact" if o["exact"] else "", (o["model"][2][:200] if o["model"] else "").replace("\n", " "))


if __name__ == "__main__": main()
