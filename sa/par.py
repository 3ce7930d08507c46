"""Work split over processes."""
import os
import pickle
import traceback

from .loader import AnalysisBroken


def pmap(fn, items, procs=None, fallback=None):
    """[fn(item)] in the order of the items; every process gets every n-th item. An item whose analysis fails has the result fallback(type of the failure)"""
    if fallback is not None and not os.environ.get('VERIF_STRICT'):
        whole = fn

        def fn(x):
            try:
                return whole(x)
            except AnalysisBroken:
                raise
            except Exception as ex:
                return fallback('the analysis failed: ' + type(ex).__name__)
    items = list(items)
    procs = max(1, min(procs or os.cpu_count() or 1, 8, len(items)))
    kids = []
    for k in range(procs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as f:
                    try:
                        pickle.dump([fn(x) for x in items[k::procs]], f)
                        code = 0
                    except BaseException:
                        pickle.dump(traceback.format_exc(), f)
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r, k))
    out = [None] * len(items)
    bad = None
    for pid, r, k in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        res = pickle.loads(data) if data else 'a process ended without a result'
        if isinstance(res, str):
            bad = bad or res
        else:
            out[k::procs] = res
    if bad:
        raise AnalysisBroken(bad)
    return out
