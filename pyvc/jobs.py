"""Jobs: units of verification work run in parallel, one process each."""
import multiprocessing
import os
import time
import traceback

from .source import problems
from .values import Unsupported

KINDS = {}


def kind(name):
    def reg(f):
        KINDS[name] = f
        return f
    return reg


class Job:
    def __init__(self, kind, target, *params, weight=1):
        self.kind, self.target, self.params, self.weight = kind, target, params, weight

    @property
    def name(self):
        return "%s:%s" % (self.kind, self.target)


class Result:
    def __init__(self, job):
        self.job = job.name
        self.obs = []            # (name, ok, detail, where)
        self.functions = []
        self.checks = self.unknown = 0
        self.solver = self.wall = 0.0
        self.notes = []


def run_job(job):
    t0 = time.time()
    res = Result(job)
    try:
        KINDS[job.kind](job, res)
    except Unsupported as e:
        res.obs.append(("%s/within the verified subset" % job.name, False,
                        "not accepted by the verifier: %s" % e, ""))
    except RecursionError:
        res.obs.append(("%s/within the verified subset" % job.name, False,
                        "not accepted by the verifier: recursion", ""))
    except Exception as e:                      # the code is outside what is handled
        res.obs.append(("%s/within the verified subset" % job.name, False,
                        "not accepted by the verifier: %s: %s\n%s" % (
                            type(e).__name__, e, traceback.format_exc()[-1500:]), ""))
    if not res.obs:
        res.obs.append(("%s/nonempty" % job.name, False, "no obligation was generated", ""))
    res.obs.append(("%s/modules and classes consist of definitions" % job.name, not problems(),
                    "not accepted by the verifier: " + "; ".join(problems()[:5]), ""))
    res.wall = time.time() - t0
    return res


def merge_run(res, run):
    res.obs += [(o.name, o.ok, o.detail, o.where) for o in run.obs]
    merge_ip(res, run.ip)


def merge_ip(res, ip):
    res.checks += ip.stats.checks
    res.unknown += ip.stats.unknown
    res.solver += ip.stats.time
    res.functions += sorted({"%s.%s" % (m, q) for m, q, _ in ip.visited})


LIMIT_S = float(os.environ.get("PYVC_LIMIT_S", "480"))


def indexed(a):
    return a[0], run_job(a[1])


def run_all(jobs, procs=None, limit=None):
    """The results of all jobs. One that has no answer within the limit is not accepted."""
    problems()
    procs = procs or min(8, os.cpu_count() or 1)
    end = time.time() + (limit or LIMIT_S)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
    out = [None] * len(jobs)
    mp = multiprocessing.get_context("fork")
    with mp.Pool(procs, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(indexed, [(i, jobs[i]) for i in order], chunksize=1)
        try:
            for _ in order:
                i, r = it.next(timeout=max(.1, end - time.time()))
                out[i] = r
        except multiprocessing.TimeoutError:
            pool.terminate()
    for i, j in enumerate(jobs):
        if out[i] is None:
            out[i] = Result(j)
            out[i].obs.append(("%s/within the time limit" % j.name, False,
                               "not accepted by the verifier: no answer in time", ""))
    return out
