"""Stateless bounded model checker.

A *scope* is a choice tree plus a body.  ``gen(ctx)`` walks the tree: every call
of ``ctx.choose`` branches over all its options, every call of ``ctx.dev``
branches over the default (first) option and, at the price of one deviation
from a bounded budget, over each of the others.  All complete paths are
enumerated (simplest first) by replaying choice prefixes; ``run(case)`` then
executes the real code on each and checks the oracle.  Nothing is sampled.
"""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fail(Exception):
    """A property violation. sig identifies the specific failing input / call site."""

    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = str(sig)
        self.msg = str(msg)


class Prune(Exception):
    pass


class Ctx:
    def __init__(self, prefix, budget):
        self.prefix = prefix
        self.budget = budget
        self.used = 0
        self.trace = []  # (name, index, number of options)
        self.case = {}

    def _take(self, name, options, n):
        i = len(self.trace)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= n:
            raise RuntimeError("choice tree is not deterministic at %s" % name)
        self.trace.append((name, k, n))
        v = options[k]
        self.case[name] = v
        return v, k

    def choose(self, name, options):
        options = list(options)
        return self._take(name, options, len(options))[0]

    def dev(self, name, options):
        options = list(options)
        n = len(options) if self.used < self.budget else 1
        v, k = self._take(name, options, n)
        if k:
            self.used += 1
        return v

    def prune(self):
        raise Prune()


STOP = int(os.environ.get("MC_STOP", "12"))  # violations after which a check stops exploring


def enumerate_tree(gen, budget, limit=None):
    """All complete paths of the tree; returns (cases, states, transitions, capped)."""
    cases, states, transitions = [], 1, 0
    stack = [()]
    capped = False
    while stack:
        prefix = stack.pop()
        ctx = Ctx(prefix, budget)
        pruned = False
        try:
            extra = gen(ctx)
        except Prune:
            pruned = True
            extra = None
        tr = ctx.trace
        if len(tr) < len(prefix):
            raise RuntimeError("prefix replay diverged")
        new = len(tr) - max(len(prefix) - 1, 0) if prefix else len(tr)
        states += new
        transitions += new
        for i in range(len(tr) - 1, len(prefix) - 1, -1):
            base = tuple(t[1] for t in tr[:i])
            for k in range(tr[i][2] - 1, 0, -1):
                stack.append(base + (k,))
        if not pruned:
            if extra:
                ctx.case.update(extra)
            cases.append((ctx.used, tuple(t[1] for t in tr), ctx.case))
            if limit and len(cases) >= limit:
                capped = True
                break
    cases.sort(key=lambda c: c[0])  # stable: fewest deviations first
    return cases, states, transitions, capped


class Scope:
    def __init__(self, name, gen, run, dev=2, thorough_dev=None, timeout=120, doc=""):
        self.name, self.gen, self.run = name, gen, run
        self.dev = dev
        self.thorough_dev = thorough_dev if thorough_dev is not None else dev + 1
        self.timeout = timeout
        self.doc = doc


def short(v, n=600):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def classify(exc, case, scope):
    if isinstance(exc, Fail):
        return exc.sig, exc.msg
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/ot/" in fr.filename:
            where = "%s:%s" % (fr.filename.split("/ot/")[-1], fr.name)
            break
    return (
        "exception:%s:%s:%s" % (scope.name, type(exc).__name__, where),
        "unexpected %s: %s\n%s" % (type(exc).__name__, exc, "".join(traceback.format_tb(exc.__traceback__)[-4:])),
    )


def _run_one(scope, case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return scope.run(case)


def _worker(wid, tasks, scopes, counter, current, started, conn, nchunk):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        import numpy as np

        np.seterr(all="ignore")
    except Exception:
        pass
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    conn.send(("ready",))
    while True:
        msg = conn.recv()
        if msg is None:
            return
        lo, hi = msg
        res = []
        for i in range(lo, hi):
            si, case = tasks[i]
            started[wid] = time.time()  # before current: the parent must never pair a new case with an old start
            current[wid] = i
            try:
                out = _run_one(scopes[si], case)
                res.append((i, "ok", out))
            except Fail as e:
                res.append((i, "fail", (e.sig, e.msg)))
            except Exception as e:
                res.append((i, "fail", classify(e, case, scopes[si])))
            current[wid] = -1
            if len(res) > 200:
                conn.send(("part", res))
                res = []
        conn.send(("done", res))


class Pool:
    def __init__(self, tasks, scopes, jobs, chunk):
        self.tasks, self.scopes, self.jobs, self.chunk = tasks, scopes, jobs, chunk
        self.ctx = mp.get_context("fork")
        self.current = self.ctx.Array("l", [-1] * jobs, lock=False)
        self.started = self.ctx.Array("d", [0.0] * jobs, lock=False)
        self.w = [None] * jobs

    def spawn(self, i):
        a, b = self.ctx.Pipe()
        self.current[i] = -1
        p = self.ctx.Process(
            target=_worker,
            args=(i, self.tasks, self.scopes, None, self.current, self.started, b, self.chunk),
            daemon=False,
        )
        p.start()
        b.close()
        self.w[i] = [p, a, None]

    def run(self, on_result, deadline, should_stop):
        n = len(self.tasks)
        queue = [(lo, min(lo + self.chunk, n)) for lo in range(0, n, self.chunk)][::-1]
        pend = 0
        for i in range(min(self.jobs, max(1, len(queue)))):
            self.spawn(i)
        active = [i for i in range(self.jobs) if self.w[i]]
        idle = set()
        done_cases = 0
        from multiprocessing.connection import wait

        def give(i):
            nonlocal pend
            if queue and not should_stop():
                self.w[i][2] = queue.pop()
                self.w[i][1].send(self.w[i][2])
                pend += 1
                idle.discard(i)
            else:
                self.w[i][2] = None
                idle.add(i)

        def lost(i, kind):
            nonlocal pend
            p, conn, rng = self.w[i]
            cur = self.current[i]
            try:
                while conn.poll(0):
                    m = conn.recv()
                    if m[0] in ("part", "done"):
                        for r in m[1]:
                            on_result(*r)
            except (EOFError, OSError):
                pass
            try:
                p.kill()
            except Exception:
                pass
            p.join()
            conn.close()
            if rng is not None:
                pend -= 1
                lo, hi = rng
                if cur >= 0:
                    si, case = self.tasks[cur]
                    code = p.exitcode
                    on_result(
                        cur, "fail",
                        ("%s:%s" % (kind, self.scopes[si].name),
                         "%s while executing the case (exit code %s)" % (kind, code)),
                    )
                    if cur + 1 < hi:
                        queue.append((cur + 1, hi))
                elif kind == "crash":
                    # died between cases; redo the chunk once
                    queue.append((lo, hi))
            self.spawn(i)

        capped = False
        while True:
            if time.time() > deadline:
                capped = bool(queue) or pend > 0
                break
            if pend == 0 and (not queue or should_stop()) and len(idle) == len(active):
                break
            ready = wait([self.w[i][1] for i in active], timeout=1.0)
            for i in list(active):
                p, conn, rng = self.w[i]
                if conn in ready:
                    try:
                        m = conn.recv()
                    except (EOFError, OSError):
                        p.join(5)
                        lost(i, "crash")
                        continue
                    if m[0] == "ready":
                        give(i)
                    else:
                        for r in m[1]:
                            on_result(*r)
                        if m[0] == "done":
                            pend -= 1
                            give(i)
                else:
                    cur = self.current[i]
                    if cur >= 0 and time.time() - self.started[i] > self.scopes[self.tasks[cur][0]].timeout:
                        lost(i, "hang")
            if queue and not should_stop():
                for i in list(idle):
                    give(i)
        for i in active:
            try:
                self.w[i][1].send(None)
            except Exception:
                pass
        t0 = time.time()
        for i in active:
            self.w[i][0].join(max(0.1, 3 - (time.time() - t0)))
            if self.w[i][0].is_alive():
                self.w[i][0].kill()
                self.w[i][0].join()
        return capped


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> sig=<signature> -- description'."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        head, _, desc = line[len("finding:"):].partition(" -- ")
        f = dict(tok.split("=", 1) for tok in head.split() if "=" in tok)
        if f.get("property") == prop:
            out[f["sig"]] = desc
    return out


def run_check(prop, scopes, tier="quick", jobs=None, budget_s=None, assumptions=(), note="", only=None):
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    budget_s = budget_s or (600 if tier == "quick" else 3 * 3600)
    known = load_known(prop)
    tasks, keys, per_scope = [], [], []
    states = transitions = 0
    capped_scopes = []
    for si, sc in enumerate(scopes):
        if only and sc.name not in only:
            per_scope.append(dict(scope=sc.name, skipped=True))
            continue
        dev = sc.dev if tier == "quick" else sc.thorough_dev
        cases, st, tr, capped = enumerate_tree(sc.gen, dev)
        states += st
        transitions += tr
        per_scope.append(dict(scope=sc.name, doc=sc.doc, deviation_bound=dev, cases=len(cases), tree_states=st,
                              tree_transitions=tr, executed=0, inner=0, outcomes=set(), nontrivial=0))
        for used, key, case in cases:
            tasks.append((si, case))
            keys.append(key)
    t_enum = time.time() - t0
    # interleave scopes so that expensive ones spread over workers
    chunk = max(1, min(64, len(tasks) // (jobs * 16) or 1))
    viol, hits = [], {}
    stats = dict(done=0, inner=0, states=0, transitions=0)

    def on_result(i, kind, payload):
        si, case = tasks[i]
        ps = per_scope[si]
        ps["executed"] += 1
        stats["done"] += 1
        if kind == "ok":
            if isinstance(payload, dict):
                ps["inner"] += payload.get("inner", 0)
                stats["states"] += payload.get("states", 0)
                stats["transitions"] += payload.get("transitions", 0)
                stats["inner"] += payload.get("inner", 0)
                oc = payload.get("outcome")
                for s_, m_ in payload.get("known", ()):
                    # a divergence the body recognised and looked past; still a violation unless it is listed
                    if s_ in known:
                        hits[s_] = hits.get(s_, 0) + 1
                    else:
                        viol.append((i, s_, m_))
            else:
                oc = payload
            if oc is not None:
                ps["nontrivial"] += 1
                if len(ps["outcomes"]) < 200000:
                    ps["outcomes"].add(oc if isinstance(oc, (str, int, float, tuple)) else repr(oc))
        else:
            sig, msg = payload
            if sig in known:
                hits[sig] = hits.get(sig, 0) + 1
            else:
                viol.append((i, sig, msg))

    pool = Pool(tasks, scopes, jobs, chunk)
    capped = pool.run(on_result, t0 + budget_s, lambda: len(viol) >= STOP)
    stopped = len(viol) >= STOP
    viol.sort(key=lambda v: v[0])
    rdir = os.path.join(VERIF, "evidence", "replay")
    lines, seen = [], set()
    for i, sig, msg in viol:
        if sig in seen:
            continue
        seen.add(sig)
        si, case = tasks[i]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, len(lines) + 1))
        with open(path, "w") as f:
            json.dump(dict(property=prop, scope=scopes[si].name, tier=tier, choices=keys[i],
                           case={k: short(v, 4000) for k, v in case.items()}, signature=sig, message=msg,
                           replay_cmd="python -m mc %s --replay %s" % (prop, path)), f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("violation in scope %s: %s\n  %s\n  case: %s" % (scopes[si].name, sig, msg.strip()[:2000], short(case)))
        if len(lines) >= 5:
            break
    for s_, d in sorted(known.items()):
        if s_ in hits:
            print("KNOWN-FINDING: property=%s %s (%d cases) -- %s" % (prop, s_, hits[s_], d))
    samples = []
    for si, sc in enumerate(scopes):
        ids = [j for j, t in enumerate(tasks) if t[0] == si]
        for j in ([ids[0], ids[len(ids) // 2], ids[-1]] if ids else []):
            samples.append(dict(scope=sc.name, choices=list(keys[j]), case={k: short(v, 200) for k, v in tasks[j][1].items()}))
    distinct = 0
    for ps in per_scope:
        if "outcomes" in ps:
            distinct += len(ps["outcomes"])
            ps["distinct_outcomes"] = len(ps.pop("outcomes"))
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            states=states + stats["states"], transitions=transitions + stats["transitions"],
            traces_validated_against_impl=stats["done"] + stats["inner"],
            distinct_nontrivial=distinct,
            rule="every path of the choice tree of each scope (all options of choose, all sets of at most "
                 "deviation_bound non-default options of dev) is executed on the real code; distinct_nontrivial "
                 "counts distinct observed outcomes",
            samples=samples[:60], scopes=per_scope, exhaustive=not (capped or stopped),
            enumeration_s=round(t_enum, 2), note=note,
        ),
        assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(viol),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    tot = dict(cases=len(tasks), executed=stats["done"], inner=stats["inner"], states=ev["coverage"]["states"],
               outcomes=distinct, wall=ev["wall_s"])
    print("%s %s: %s%s" % (prop, tier, tot, " CAPPED" if capped else ""))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if lines else 0


def replay(prop, scopes, path):
    d = json.load(open(path))
    sc = [s for s in scopes if s.name == d["scope"]][0]
    ctx = Ctx(tuple(d["choices"]), 99)
    # the deviation budget only decides which options exist; give enough for the recorded path
    extra = sc.gen(ctx)
    if extra:
        ctx.case.update(extra)
    print("replaying", sc.name, short(ctx.case, 3000))
    try:
        out = _run_one(sc, ctx.case)
    except Exception as e:
        sig, msg = classify(e, ctx.case, sc)
        print("reproduced: %s\n%s" % (sig, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation on replay; outcome", short(out))
    return 0
