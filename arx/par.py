"""Cases spread over processes; what they report is plain data."""
import os, pickle, sys, traceback


def pmap(f, items, workers=8):
    """[f(x) for x in items], computed by forked processes; f returns picklable data"""
    items = list(items)
    n = max(1, min(workers, len(items), os.cpu_count() or 1))
    if n == 1:
        return [f(x) for x in items]
    out = [None] * len(items); jobs = []
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    data = ("ok", [(i, f(items[i])) for i in range(w, len(items), n)])
                except BaseException as e:
                    data = ("exc", (e.__class__.__module__, e.__class__.__name__, tuple(str(a) for a in ((e.what, e.where, e.detail) if hasattr(e, "what") else e.args)), traceback.format_exc()))
                with os.fdopen(wr, "wb") as fh:
                    pickle.dump(data, fh)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(wr); jobs.append((pid, r))
    bad = None
    for pid, r in jobs:
        with os.fdopen(r, "rb") as fh:
            raw = fh.read()
        os.waitpid(pid, 0)
        if not raw:
            bad = bad or ("arx.prog", "Broken", ("a worker process ended without an answer",), ""); continue
        kind, data = pickle.loads(raw)
        if kind == "exc":
            bad = bad or data
        else:
            for i, x in data:
                out[i] = x
    if bad:
        mod, name, args, tb = bad
        cls = getattr(sys.modules.get(mod), name, None)
        if cls is None or not issubclass(cls, Exception):
            raise RuntimeError("%s.%s%s\n%s" % (mod, name, args, tb))
        sys.stderr.write(tb if name not in ("Failed",) else "")
        raise cls(*args)
    return out
