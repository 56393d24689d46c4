"""Runs a function in a child forked from the calling (pristine) process and returns its pickled result.

The caller has imported the package and has never evaluated anything with it, so every child starts from the state a
fresh process has after the import - whatever form remembered state may take.
"""
import os
import pickle
import traceback


def run(fn, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = (True, fn(*args))
            except BaseException:
                out = (False, traceback.format_exc())
            data = pickle.dumps(out, protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("child died")
    ok, out = pickle.loads(data)
    if not ok:
        raise RuntimeError(out)
    return out
