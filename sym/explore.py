"""Parallel exhaustive exploration of the paths of a harness."""

import gc
import hashlib
import multiprocessing
import multiprocessing.connection
import os
import time
import traceback

from . import rewrite, runtime
from .core import E, Stats

CTX = multiprocessing.get_context("fork")


class Job:
    """What a worker reports for one chunk of work"""

    __slots__ = ("stats", "violations", "pending", "samples", "error")


def _digest(prefix):
    return hashlib.sha1(repr(prefix).encode("utf-8", "surrogatepass")).digest()


def run_chunk(harness, prefixes, chunk_s, sample_mod):
    E.stats = Stats()
    runtime.COV.clear()
    job = Job()
    job.violations = []
    job.samples = []
    job.error = None
    stack = list(prefixes)
    t0 = time.monotonic()
    while stack:
        prefix = stack.pop()
        rewrite.reset()
        try:
            viol, pend = E.run_path(harness.run, prefix)
        except Exception:
            job.error = f"{traceback.format_exc()}\nprefix={prefix!r}"
            break
        stack.extend(pend)
        if viol:
            job.violations.extend(viol)
        elif (
            E.scenario is not None
            and E.ended == "done"
            and _digest(E.decisions)[0] % sample_mod == 0
            and len(job.samples) < 3
        ):
            try:
                E.active = True
                E.witness()
                job.samples.append(E.conc(E.scenario()))
            except BaseException as exc:  # noqa
                if isinstance(exc, KeyboardInterrupt):
                    raise
                if not type(exc).__name__ in ("PathEnd", "Limit"):
                    job.error = traceback.format_exc()
                    break
            finally:
                E.active = False
        if len(job.violations) >= 4:
            break
        if time.monotonic() - t0 > chunk_s:
            break
    job.pending = stack
    job.stats = E.stats
    job.stats.functions = set(runtime.COV)
    return job


def _worker(conn, harness, chunk_s, sample_mod):
    gc.disable()
    try:
        harness.setup()
        rewrite.snapshot()
        n = 0
        while True:
            msg = conn.recv()
            if msg is None:
                break
            job = run_chunk(harness, msg, chunk_s, sample_mod)
            conn.send(
                (job.stats, job.violations, job.pending, job.samples, job.error)
            )
            n += 1
            if n % 10 == 0:
                gc.collect()
    except EOFError:
        pass
    except BaseException:
        try:
            conn.send((Stats(), [], [], [], traceback.format_exc()))
        except Exception:
            pass
    finally:
        os._exit(0)


class Result:
    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.samples = []
        self.error = None
        self.exhausted = False
        self.wall_s = 0.0
        self.left = 0


def explore(
    harness,
    on_violation,
    *,
    workers=None,
    max_paths=10**9,
    max_s=600.0,
    chunk_s=0.4,
    sample_mod=64,
    max_samples=24,
):
    """
    Explore all paths of *harness*. on_violation(v) is called for every
    violation, exploration stops when it returns True.
    """
    workers = workers or int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    res = Result()
    t0 = time.monotonic()
    procs = []
    for _ in range(workers):
        a, b = CTX.Pipe()
        p = CTX.Process(
            target=_worker, args=(b, harness, chunk_s, sample_mod), daemon=True
        )
        p.start()
        b.close()
        procs.append((p, a))
    idle = [a for _, a in procs]
    busy = set()
    pending = [[]]
    stop = False
    try:
        while True:
            timeout = time.monotonic() - t0 > max_s
            limit = res.stats.paths >= max_paths
            if not stop and not timeout and not limit:
                while idle and pending:
                    conn = idle.pop()
                    # many small tasks when there is little work
                    n = max(1, min(64, len(pending) // (2 * workers)))
                    # shallow prefixes first, they have the most work below them
                    batch = pending[:n]
                    del pending[:n]
                    conn.send(batch)
                    busy.add(conn)
            if not busy:
                break
            for conn in multiprocessing.connection.wait(list(busy)):
                try:
                    stats, viol, left, samples, error = conn.recv()
                except EOFError:
                    res.error = "worker died"
                    busy.discard(conn)
                    stop = True
                    continue
                busy.discard(conn)
                idle.append(conn)
                res.stats.merge(stats)
                pending.extend(left)
                if len(res.samples) < max_samples:
                    res.samples.extend(samples[: max_samples - len(res.samples)])
                if error and not res.error:
                    res.error = error
                    stop = True
                for v in viol:
                    if not stop or len(res.violations) < 50:
                        res.violations.append(v)
                        if on_violation(v):
                            stop = True
    finally:
        for p, a in procs:
            try:
                a.send(None)
            except Exception:
                pass
        for p, a in procs:
            p.join(1)
            if p.is_alive():
                p.terminate()
                p.join(1)
    res.left = len(pending)
    res.exhausted = (
        not pending
        and not stop
        and res.error is None
        and res.stats.limits == 0
        and res.stats.unknown == 0
        and res.stats.pins == 0
    )
    res.wall_s = time.monotonic() - t0
    return res
