"""Interrupted operations: an exception (like KeyboardInterrupt or MemoryError) arrives at the k-th executed line of pcollections."""
import os, sys
import pcollections
PREFIX = os.path.dirname(os.path.abspath(pcollections.__file__)) + os.sep


class Interrupt(KeyboardInterrupt): pass
class NoMemory(MemoryError): pass


def run(f, k, exc=Interrupt):
    """(result, exception, lines) of f with exc raised at its k-th line; lines < k means that f was not interrupted."""
    n = 0
    def local(frame, event, arg):
        nonlocal n
        if event == 'line':
            n += 1
            if n == k: raise exc()
        return local
    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PREFIX) else None
    r = e = None
    sys.settrace(trace)
    try: r = f()
    except Exception as x: e = x
    except Interrupt as x: e = x
    finally: sys.settrace(None)
    return r, e, n
