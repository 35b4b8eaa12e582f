"""A small property-based-testing engine: choice-sequence generators, internal shrinking,
process-parallel deterministic exploration, crash/hang isolation, replay files.

Every random decision of a case is drawn through `Source.draw`, so a case is a pure function of its
recorded choice list.  Case i of a run draws from Random(f"{seed}:{stream}:{i}"), so a run is a pure
function of the code under test and VERIF_SEED, however many worker processes share the work.
"""
import hashlib, json, mmap, os, pathlib, random, resource, shutil, signal, struct, sys, tempfile
import time, traceback

sys.setrecursionlimit(20000)


class Reject(Exception):
    """The generated input is outside the property's domain (counted, never a failure)."""


class Violation(Exception):
    def __init__(self, msg, **data):
        super().__init__(msg)
        self.msg = msg
        self.data = data
        self.hint, self.hints = None, ()


class Source:
    __slots__ = ("rng", "prefix", "rec", "pos", "limit", "sink")

    def __init__(self, rng=None, prefix=None, limit=20000, sink=None):
        self.rng, self.prefix, self.rec, self.pos, self.limit = rng, prefix, [], 0, limit
        self.sink = sink

    def draw(self, n):
        """Integer in [0, n]; 0 is the simplest."""
        if self.pos >= self.limit:
            raise Reject("too many choices")
        if self.prefix is not None and self.pos < len(self.prefix):
            v = min(self.prefix[self.pos], n)
        elif self.rng is not None:
            v = self.rng.randint(0, n)
        else:
            v = 0
        self.pos += 1
        self.rec.append(v)
        if self.sink is not None:
            self.sink.write(f"{v}\n")
            self.sink.flush()
        return v

    def int(self, lo, hi):
        """lo..hi, shrinks towards lo."""
        return lo + self.draw(hi - lo)

    def sint(self, m):
        """-m..m, shrinks towards 0."""
        v = self.draw(2 * m)
        return (v + 1) // 2 if v & 1 else -(v // 2)

    def bool(self, p=0.5):
        """True with probability p; shrinks to False."""
        return self.draw(999) >= 1000 - int(round(p * 1000))

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """[(weight, value)...]; shrinks to the first."""
        tot = sum(w for w, _ in pairs)
        r = self.draw(tot - 1)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def list(self, gen, lo, hi):
        n = self.int(lo, hi)
        return [gen(self) for _ in range(n)]

    def perm(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - 1 - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Ctx:
    """Per-case context: classification counters, non-triviality, sample text."""

    def __init__(self):
        self.labels = {}
        self.nontrivial = []
        self.sample = None
        self.units = 1          # inputs evaluated by the case (a case may be a batch)

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def mark(self, key, sample=None):
        """Declare the case (or one input of a batch) non-trivial; `key` identifies it."""
        self.nontrivial.append(hashlib.blake2b(str(key).encode(), digest_size=8).hexdigest())
        self.sample = sample if sample is not None else str(key)


def run_once(fn, src):
    """-> (status, payload, ctx); status in ok/reject/violation."""
    ctx = Ctx()
    try:
        fn(src, ctx)
        return "ok", None, ctx
    except Reject as e:
        return "reject", str(e), ctx
    except Violation as e:
        return "violation", e, ctx
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        # The checks catch the exceptions an operation may legitimately raise; anything else is an
        # operation failing on an input the library accepts.
        tb = traceback.format_exc(limit=-4)
        return "violation", Violation(f"unexpected {type(e).__name__}: {str(e)[:200]}",
                                      traceback=tb), ctx


def _shrink(fn, choices, deadline, max_calls=4000):
    best = list(choices)
    calls = 0
    last = None

    def fails(c):
        nonlocal calls, last
        calls += 1
        src = Source(prefix=c)
        try:
            st, e, _ = run_once(fn, src)
        except Exception:
            return None
        if st == "violation":
            last = e
            return src.rec
        return None

    def better(a, b):
        return (len(a), a) < (len(b), b)

    improved = True
    while improved and calls < max_calls and time.monotonic() < deadline:
        improved = False
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0 and calls < max_calls and time.monotonic() < deadline:
                cand = best[:i] + best[i + size:]
                r = fails(cand)
                if r is not None and better(r, best):
                    best, improved = r, True
                    i = min(i, len(best) - size)
                else:
                    # also try: delete and decrement the preceding (length-like) choice
                    if i > 0 and best[i - 1] > 0:
                        c2 = best[:i] + best[i + size:]
                        c2[i - 1] -= 1
                        r = fails(c2)
                        if r is not None and better(r, best):
                            best, improved = r, True
                            i = min(i, len(best) - size)
                            continue
                    i -= 1
        for size in (8, 4, 2):
            for i in range(0, max(0, len(best) - size + 1)):
                if calls >= max_calls or time.monotonic() >= deadline:
                    break
                if i + size <= len(best) and any(best[i:i + size]):
                    r = fails(best[:i] + [0] * size + best[i + size:])
                    if r is not None and better(r, best):
                        best, improved = r, True
        i = 0
        while i < len(best) and calls < max_calls and time.monotonic() < deadline:
            lo, hi = 0, best[i]
            if hi > 0:
                r = fails(best[:i] + [0] + best[i + 1:])
                if r is not None and better(r, best):
                    best, improved = r, True
                else:
                    while i < len(best) and lo + 1 < hi and calls < max_calls:
                        mid = (lo + hi) // 2
                        r = fails(best[:i] + [mid] + best[i + 1:])
                        if r is not None and better(r, best):
                            best, improved = r, True
                            hi = mid
                        else:
                            lo = mid
                    if i < len(best) and best[i] > 1:
                        r = fails(best[:i] + [best[i] - 1] + best[i + 1:])
                        if r is not None and better(r, best):
                            best, improved = r, True
            i += 1
    r = fails(best)
    return best, last, calls


class Stream:
    """A named family of cases: `fn(src, ctx)` raises Violation on failure."""

    def __init__(self, name, fn, quick, thorough, hang_s=60):
        self.name, self.fn, self.quick, self.thorough, self.hang_s = name, fn, quick, thorough, hang_s


def _worker(streams, counts, seed, k, nworkers, mm, outpath, t_end):
    res = {"evals": {}, "rejects": {}, "labels": {}, "keys": [], "samples": [], "viol": [],
           "timeout": False}
    keys = set()
    for si, st in enumerate(streams):
        done = rej = 0
        labels = {}
        for i in range(k, counts[si], nworkers):
            if time.monotonic() > t_end:
                res["timeout"] = True
                break
            mm[k * 16:(k + 1) * 16] = struct.pack("qq", si, i)
            src = Source(rng=random.Random(f"{seed}:{st.name}:{i}"))
            status, e, ctx = run_once(st.fn, src)
            done += 1
            if status == "reject":
                rej += 1
                labels["reject:" + str(e)[:40]] = labels.get("reject:" + str(e)[:40], 0) + 1
            for n, c in ctx.labels.items():
                labels[n] = labels.get(n, 0) + c
            done += ctx.units - 1
            if ctx.nontrivial and status == "ok":
                before = len(keys)
                keys.update(ctx.nontrivial)
                if len(res["samples"]) < 3 and len(keys) > before and \
                        (len(keys) % 37 == 1 or len(ctx.nontrivial) > 1):
                    res["samples"].append([st.name, str(ctx.sample)[:600]])
            if status == "violation":
                start = src.rec
                for hint in (e.hint, *e.hints):     # a smaller case that may fail as well
                    if hint and run_once(st.fn, Source(prefix=hint))[0] == "violation":
                        start = hint
                        break
                best, last, calls = _shrink(st.fn, start, time.monotonic() + 60)
                err = last or e
                res["viol"].append({"stream": st.name, "index": i, "choices": best,
                                    "orig_choices": src.rec, "message": err.msg,
                                    "data": {a: str(b)[:4000] for a, b in err.data.items()}})
                break
        res["evals"][st.name] = done
        res["rejects"][st.name] = rej
        res["labels"][st.name] = labels
        if res["viol"]:
            break
    res["keys"] = sorted(keys)
    tmp = outpath + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, outpath)


def _child(fn):
    """fork, run fn in the child, _exit 0 (or 97 on python exception)."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            os.setpgid(0, 0)
            fn()
            code = 0
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    return pid


def _probe(stream, choices, rng_seed, path, cpu_s):
    """Run one case in a child; -> 'ok' | 'reject' | 'violation' | 'crash:N' | 'hang' | 'error'."""
    out = path + ".probe"
    if os.path.exists(out):
        os.unlink(out)

    def body():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        with open(path, "w") as sink:
            src = Source(prefix=choices, rng=random.Random(rng_seed) if rng_seed else None,
                         sink=sink)
            st, e, _ = run_once(stream.fn, src)
        with open(out, "w") as f:
            json.dump([st, e.msg if isinstance(e, Violation) else e,
                       {a: str(b)[:4000] for a, b in e.data.items()}
                       if isinstance(e, Violation) else {}], f)

    pid = _child(body)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig in (signal.SIGXCPU, signal.SIGKILL):
            return "hang", f"no result within {cpu_s} s of CPU time", {}
        return "crash", f"process killed by signal {sig} ({signal.Signals(sig).name})", {}
    try:
        with open(out) as f:
            return tuple(json.load(f))
    except OSError:
        return "error", "harness error in the case (see stderr)", {}


def probe(stream, choices, rng_seed=None, cpu_s=60):
    d = tempfile.mkdtemp(prefix="wfpbt")
    try:
        r = _probe(stream, choices, rng_seed, d + "/choices", cpu_s)
        rec = []
        try:
            rec = [int(x) for x in open(d + "/choices").read().split()]
        except OSError:
            pass
        return r, rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _shrink_crash(stream, choices, budget_s=60):
    best = list(choices)
    end = time.monotonic() + budget_s

    def bad(c):
        (st, _, _), rec = probe(stream, c, None, 30)
        return rec if st == "crash" else None

    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for size in (64, 16, 4, 1):
            i = len(best) - size
            while i >= 0 and time.monotonic() < end:
                r = bad(best[:i] + best[i + size:])
                if r is not None and (len(r), r) < (len(best), best):
                    best, improved = r, True
                    i = min(i, len(best) - size)
                else:
                    i -= max(1, size // 2)
    return best


def explore(streams, tier, seed, nworkers=None, time_cap=None):
    """Run all streams; -> dict with counts, violations, labels."""
    nworkers = nworkers or int(os.environ.get("WF_WORKERS", "8"))
    time_cap = time_cap or (240 if tier == "quick" else 3000)
    scale = float(os.environ.get("WF_SCALE", "1"))
    counts = [max(1, int((s.quick if tier == "quick" else s.thorough) * scale)) for s in streams]
    work = tempfile.mkdtemp(prefix="wfpbt")
    mm = mmap.mmap(-1, 16 * nworkers)
    t_end = time.monotonic() + time_cap
    agg = {"evals": {}, "rejects": {}, "labels": {}, "keys": set(), "samples": [], "viol": [],
           "timeout": False, "errors": []}
    pids = {}
    try:
        for k in range(nworkers):
            out = f"{work}/{k}.json"

            def body(k=k, out=out):
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                _worker(streams, counts, seed, k, nworkers, mm, out, t_end)

            pids[_child(body)] = k
        progress = {}
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.02)
                now = time.monotonic()
                for p, k in list(pids.items()):
                    cur = bytes(mm[k * 16:(k + 1) * 16])
                    if progress.get(k, (None,))[0] != cur:
                        progress[k] = (cur, now)
                    elif now - progress[k][1] > 150:
                        os.kill(p, signal.SIGKILL)   # judged by the probe below
                        progress[k] = (cur, now + 1e9)
                continue
            if pid not in pids:
                continue
            k = pids.pop(pid)
            out = f"{work}/{k}.json"
            if os.path.exists(out):
                r = json.load(open(out))
                for n, c in r["evals"].items():
                    agg["evals"][n] = agg["evals"].get(n, 0) + c
                for n, c in r["rejects"].items():
                    agg["rejects"][n] = agg["rejects"].get(n, 0) + c
                for n, d in r["labels"].items():
                    t = agg["labels"].setdefault(n, {})
                    for a, b in d.items():
                        t[a] = t.get(a, 0) + b
                agg["keys"].update(r["keys"])
                agg["samples"] += r["samples"]
                agg["viol"] += r["viol"]
                agg["timeout"] |= r["timeout"]
                continue
            si, i = struct.unpack("qq", mm[k * 16:(k + 1) * 16])
            st = streams[si]
            (stt, msg, data), rec = probe(st, None, f"{seed}:{st.name}:{i}", st.hang_s)
            if stt in ("crash", "hang"):
                best = _shrink_crash(st, rec) if stt == "crash" else rec
                agg["viol"].append({"stream": st.name, "index": i, "choices": best,
                                    "orig_choices": rec, "message": f"{stt}: {msg}",
                                    "data": data, "prefix_only": True,
                                    "rng": f"{seed}:{st.name}:{i}" if stt == "hang" else None})
            elif stt == "violation":
                agg["viol"].append({"stream": st.name, "index": i, "choices": rec,
                                    "orig_choices": rec, "message": msg, "data": data})
            else:
                agg["errors"].append(f"worker {k} died (status {status}) at {st.name}[{i}]; "
                                     f"probe: {stt} {msg}")
    finally:
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(work, ignore_errors=True)
    return agg


def confirm(stream, v, times=3):
    """Replay the shrunk case in fresh processes; fall back to the original choices."""
    for choices in (v["choices"], v["orig_choices"]):
        good = 0
        last = None
        for _ in range(times):
            (st, msg, data), _ = probe(stream, choices, v.get("rng"), stream.hang_s)
            if st in ("violation", "crash", "hang"):
                good += 1
                last = (st, msg, data)
        if good == times:
            v = dict(v, choices=choices)
            if last[0] == "violation":
                v["message"], v["data"] = last[1], last[2]
            return v
    return None
