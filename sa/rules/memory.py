"""M01: every object is released exactly once. M02: no null is dereferenced when something fails."""
from base import Base, Result

OWN = {"leak", "double-free", "use-after-free", "bad-free"}


def _run(m, tier):
    e = Base(m, tier)
    e.run(e.all_functions(), required=False)
    return e


def run_M01(m, tier):
    e = _run(m, tier)
    r = Result("ownership dataflow over every function: each heap object (malloc, wickr_alloc, OpenSSL, protobuf, engine slot) "
               "is, on each abstract path out of the function that holds it, released once, returned, or stored in an object "
               "that outlives it; no released object is read, written, passed on or released again")
    r.take(e, OWN)
    r.engine_cover(e)
    r.floor("functions analysed", e.stats["functions"], 300)
    r.floor("release sites evaluated", e.stats["frees"], 500)
    r.floor("allocations evaluated", e.stats["allocs"], 300)
    r.assumptions = ["contracts of libc, OpenSSL and protobuf-c in sa/models.py", "caller passes valid objects",
                     "items of wickr_array handled through the container's contract"]
    return r


def run_M02(m, tier):
    e = _run(m, tier)
    r = Result("nullness dataflow over every function: the result of every call that can fail (allocation, OpenSSL, protobuf, "
               "engine slot, library function) is null on one successor state, and no state dereferences null, passes it to a "
               "function that dereferences the parameter, or calls through it")
    r.take(e, {"null-deref"})
    r.engine_cover(e)
    r.floor("functions analysed", e.stats["functions"], 300)
    r.floor("dereferences checked", e.stats["derefs"], 5000)
    r.assumptions = ["arguments of public functions and the fields of objects passed in are as the caller's contract says"]
    return r
