"""Runs analysis jobs in forked workers with a per-job time limit and collects their verdicts."""
import os
import pickle
import select
import signal
import sys
import time
import traceback

WORKERS = os.cpu_count() or 4


def run_jobs(jobs, func, limit=200.0, deadline=780.0, log=None):
    """jobs: list of (key, payload); func(payload) -> result dict.  Yields (key, result) in completion order.
    A job that exceeds its limit, dies or raises yields {'status': 'undecided', 'why': ...}."""
    t0 = time.time()
    queue = list(jobs)[::-1]
    live = {}
    done = []
    while queue or live:
        while queue and len(live) < WORKERS:
            key, payload = queue.pop()
            if time.time() - t0 > deadline:
                done.append((key, dict(status='undecided', why='time budget exhausted', findings=[])))
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    sys.setrecursionlimit(200000)
                    res = guarded(func, payload)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            live[r] = [pid, key, time.time(), b'']
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for fd in list(live):
            pid, key, ts, buf = live[fd]
            end = False
            if fd in rd:
                data = os.read(fd, 1 << 20)
                if data:
                    live[fd][3] = buf + data
                else:
                    end = True
            res = None
            if end:
                os.waitpid(pid, 0)
                try:
                    res = pickle.loads(live[fd][3])
                except Exception:
                    res = dict(status='undecided', why='analysis process died', findings=[])
            elif now - ts > limit or now - t0 > deadline:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                res = dict(status='undecided', why='exceeded %.0f s' % (now - ts), findings=[])
            if res is not None:
                os.close(fd)
                del live[fd]
                res['secs'] = now - ts
                done.append((key, res))
                if log:
                    log(key, res)
    return done


def guarded(func, payload):
    from . import alg
    try:
        return func(payload)
    except (alg.Unsupported, alg.Blowup) as e:
        return dict(status='undecided', why='%s: %s' % (type(e).__name__, e), findings=[])
    except RecursionError:
        return dict(status='undecided', why='recursion limit', findings=[])
    except MemoryError:
        return dict(status='undecided', why='memory', findings=[])
    except Exception as e:
        return dict(status='undecided', why='internal %s: %s' % (type(e).__name__, e), findings=[],
                    trace=traceback.format_exc()[-1500:])
