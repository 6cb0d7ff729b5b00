#!/usr/bin/env python3
"""Decide one property: python3 -B fk/check.py <ID> [--thorough] [--only SUBSTR] [-v]

Every property is a list of obligations.  An obligation is an abstract scenario
(public constructors/readers/writers applied to provenance symbols) plus the
fact that must hold at its end; it is interpreted on every abstract path of
/repo's current source.  Exit 0: no violated obligation; 1: VIOLATION; 2: the
analysis found nothing to analyse.
"""
from __future__ import annotations

import json
import os
import pickle
import struct
import sys
import threading
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)

import engine  # noqa: E402
import lab as labmod  # noqa: E402
from lab import AbsExc, AnchorLost, Fail, Lab, Undecided, short  # noqa: E402


sys.modules["check"] = sys.modules[__name__]


class Skip(Exception):
    """The current abstract path is outside the obligation's hypothesis."""


class Ctx:
    """Collects the obligations of a property."""

    def __init__(self, pid, thorough):
        self.pid, self.thorough = pid, thorough
        self.obs = []
        self.L = Lab()
        self.rule = ""
        self.assume = []

    def ob(self, key, fn, where=None, paths=None, raises=None):
        """fn() -> None (holds) | message; raises: exception class name that is the required outcome."""
        self.obs.append((key, fn, where, paths or (2000 if self.thorough else 300), raises))

    def variants(self):
        """Every obligation again with ElementTree selected, and after other use of the library."""
        import settings
        for name, prelude in settings.SETTINGS.items():
            if self.pid in settings.EXCEPT.get(name, ()):
                continue
            step = 1 if self.thorough else max(1, -(-len(self.base) // settings.CAPS.get(self.pid, settings.CAP)))
            for i, (key, fn, where, paths, raises) in enumerate(list(self.base)):
                if i % step:
                    continue

                def run(fn=fn, prelude=prelude):
                    prelude(self.L)
                    return fn()
                self.obs.append((f"{key} [setting: {name}]", run, where, paths, raises))


def excname(e: AbsExc):
    c = getattr(e.val, "cls", None)
    return getattr(c, "name", None) or getattr(c, "__name__", None) or str(c)


def run_one(ctx, i):
    key, fn, where, paths, raises = ctx.obs[i]
    I = ctx.L.I
    t0 = time.time()

    def wrapped():
        try:
            return fn()
        except Fail as f:
            return f
        except Skip:
            return SKIP
        except AnchorLost as e:
            return Undecided("anchor lost: " + str(e))
        except (AbsExc, Undecided, RecursionError):
            raise
        except Exception as e:  # engine defect: no verdict
            return Undecided("engine: " + "".join(traceback.format_exception(e))[-600:])

    I.stats.functions = set()
    res = I.explore(wrapped, paths, 12_000_000 if ctx.thorough else 5_000_000)
    out = {"key": key, "paths": len(res), "ok": 0, "skip": 0, "undecided": [], "bad": [], "t": 0.0, "fns": set(I.stats.functions)}
    for p, r in res:
        msg = wh = None
        if r is SKIP:
            out["skip"] += 1
            continue
        if isinstance(r, Undecided):
            out["undecided"].append(str(r))
            continue
        if isinstance(r, AbsExc):
            msg = f"{excname(r)} escapes: {short(r.val)}"
            wh = r.loc
            if raises:
                msg = f"{excname(r)} raised instead of {raises}"
        elif isinstance(r, Fail):
            msg, wh = r.msg, r.where
        elif r is not None:
            msg = str(r)
        if msg is None:
            out["ok"] += 1
        elif p.imprecise:
            out["undecided"].append(f"{p.imprecise}: {msg}")
        else:
            out["bad"].append((msg, wh if wh else (where() if callable(where) else where), p.conditions()[:12]))
    out["t"] = time.time() - t0
    return out


SKIP = object()


def worker(ctx, idx, fd, deadline):
    try:
        with os.fdopen(fd, "wb") as w:
            for i in idx():
                if time.time() > deadline:
                    r = {"key": ctx.obs[i][0], "paths": 0, "ok": 0, "skip": 0, "undecided": ["time budget"], "bad": [], "t": 0.0, "fns": set()}
                else:
                    try:
                        r = run_one(ctx, i)
                    except Exception as e:
                        r = {"key": ctx.obs[i][0], "paths": 0, "ok": 0, "skip": 0, "undecided": ["engine: " + "".join(traceback.format_exception(e))[-600:]],
                             "bad": [], "t": 0.0, "fns": set()}
                b = pickle.dumps(r)
                w.write(struct.pack("<I", len(b)) + b)
                w.flush()
    finally:
        os._exit(0)


def parallel(ctx, n, deadline):
    """Fork workers; obligations are handed out through a shared pipe of indices."""
    rd, wr = os.pipe()
    total = len(ctx.obs)
    outs = []

    def feed():
        for i in range(total):
            os.write(wr, struct.pack("<I", i))
        os.close(wr)

    def idx():
        while True:
            b = os.read(rd, 4)
            if len(b) < 4:
                return
            yield struct.unpack("<I", b)[0]

    pids = []
    for _ in range(n):
        r, w = os.pipe()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pid = os.fork()
        if pid == 0:
            os.close(wr)
            os.close(r)
            done = threading.Thread(target=worker, args=(ctx, idx, w, deadline))
            done.start()
            done.join()
            os._exit(0)
        os.close(w)
        pids.append(pid)
        outs.append(os.fdopen(r, "rb"))
    th = threading.Thread(target=feed)
    th.start()
    results = []
    lock = threading.Lock()

    def drain(f):
        while True:
            h = f.read(4)
            if len(h) < 4:
                return
            b = f.read(struct.unpack("<I", h)[0])
            with lock:
                results.append(pickle.loads(b))

    threading.stack_size(1024 * 1024)
    ds = [threading.Thread(target=drain, args=(f,)) for f in outs]
    for d in ds:
        d.start()
    for d in ds:
        d.join()
    th.join()
    for p in pids:
        os.waitpid(p, 0)
    return results


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: "):
                d = json.loads(line[len("finding: "):])
                out.append(d)
    return out


def main(argv):
    pid = argv[1]
    if pid == "--selftest":
        L = Lab()
        n = len([m for m in L.I.modules.values()])
        print("analyser loads", n, "modules")
        return 0
    thorough = "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough"
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    verbose = "-v" in argv
    t0 = time.time()
    import props
    ctx = Ctx(pid, thorough)
    props.PROPS[pid](ctx)
    ctx.base = list(ctx.obs)
    if os.environ.get("FK_PLAIN") != "1":
        ctx.variants()
    if only:
        ctx.obs = [o for o in ctx.obs if only in o[0]]
    if not ctx.obs:
        print(f"{pid}: nothing to analyse")
        return 2
    t1 = time.time()
    budget = float(os.environ.get("FK_BUDGET", "3000" if thorough else "700"))
    res = parallel(ctx, int(os.environ.get("FK_JOBS", "8")), t0 + budget)
    missing = len(ctx.obs) - len(res)
    fns = set()
    for r in res:
        fns |= r["fns"]
    bad = sorted(((r["key"], *b) for r in res for b in r["bad"]), key=lambda x: x[:2])
    known, new, seen = [], [], set()
    kf = [k for k in known_findings() if k["property"] == pid]
    for b in bad:
        hit = next((k for k in kf if k["key"] == b[0].split(" [setting: ")[0] and k["message"] == b[1]), None)
        if hit:
            if id(hit) not in seen:
                seen.add(id(hit))
                known.append(hit)
        else:
            new.append(b)
    und = [(r["key"], u) for r in res for u in r["undecided"]]
    dis = [r for r in res if not r["bad"] and not r["undecided"] and r["ok"]]
    vac = [r for r in res if not r["bad"] and not r["undecided"] and not r["ok"]]
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
        "coverage": {
            "explanation": "Static: abstract interpretation of /repo's current source (no import or execution of it). " + ctx.rule,
            "obligations": len(ctx.obs), "discharged": len(dis), "paths": sum(r["paths"] for r in res),
            "violated": len({b[0] for b in bad}), "undecided_obligations": len({k for k, _ in und}) + missing, "vacuous": len(vac),
            "functions_analysed": len(fns), "functions": sorted(fns)[:400],
            "known_findings": len(known),
            "samples": [{"obligation": r["key"], "paths": r["paths"], "verdict": "discharged"} for r in sorted(dis, key=lambda r: r["key"])[:: max(1, len(dis) // 12)][:14]],
            "undecided": [{"obligation": k, "why": w[-300:]} for k, w in und[:25]],
        },
        "assumptions": ctx.assume + ["models of lxml/ElementTree, pygeoif, arrow, datetime and the Python builtins in /verif/fk/models.py and fk/stubs are faithful"],
        "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(ctx.obs)} obligations, {len(dis)} discharged, {len({b[0] for b in bad})} violated, {ev['coverage']['undecided_obligations']} undecided, "
          f"{len(vac)} vacuous, {ev['coverage']['paths']} paths, {len(fns)} functions, load {t1 - t0:.1f} s, total {wall:.1f} s")
    if verbose:
        for r in sorted(res, key=lambda r: -r["t"])[:8]:
            print(f"  slow {r['t']:.1f}s {r['paths']} paths {r['key']}")
        for r in vac[:10]:
            print("  vacuous", r["key"])
    for k, u in (und if verbose else und[:3]):
        print("  undecided", k, "--", u[-400:] if verbose else u[-160:])
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']} [{k['key']}: {k['message']}]")
    if new:
        rp = os.path.join(ROOT, "evidence", f"replay_{pid}.txt")
        with open(rp, "w", encoding="utf-8") as f:
            for k, m, w, c in new:
                f.write(f"obligation: {k}\nviolation:  {m}\nat:         {w}\npath:       {'; '.join(c) or '(unconditional)'}\n\n")
            f.write(f"re-run:     python3 -B /verif/fk/check.py {pid}\nrule:       {ctx.rule}\n")
        for k, m, w, c in new[:40 if verbose else 12]:
            print(f"  {k}: {m}  at {w}" + (f"  when {'; '.join(c[:4])}" if c else ""))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if not dis and not known:
        print(f"{pid}: no obligation could be decided")
        return 2
    return 0


if __name__ == "__main__":
    rc = []
    th = threading.Thread(target=lambda: rc.append(main(sys.argv)))
    th.start()
    th.join()
    sys.exit(rc[0] if rc else 2)
