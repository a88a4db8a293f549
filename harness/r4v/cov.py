"""Which lines of the library's Python modules a run executed (sys.monitoring, each line reported once: no measurable cost)."""
import os
import sys
import types

TOOL = 4
hit = {}
total = {}


def _codes(code, base):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _codes(c, base)


def _functions(mod, fn):
    seen = set()

    def walk(ns):
        for v in list(ns.values()):
            f = v
            if isinstance(v, (staticmethod, classmethod)):
                f = v.__func__
            if isinstance(v, property):
                for g in (v.fget, v.fset):
                    if g is not None:
                        yield from walk({"x": g})
                continue
            if isinstance(f, types.FunctionType):
                if f.__code__.co_filename == fn and f.__code__ not in seen:
                    seen.add(f.__code__)
                    yield f.__code__
            elif isinstance(f, type) and f.__module__ == mod.__name__ and f not in seen:
                seen.add(f)
                yield from walk(vars(f))
    yield from walk(vars(mod))


def arm():
    """Watches every function of the imported repast4py modules (compiled ones, native or by numba, are out of sight)."""
    mon = getattr(sys, "monitoring", None)
    if mon is None or mon.get_tool(TOOL) is not None:
        return
    mon.use_tool_id(TOOL, "r4v")

    def line(code, ln):
        hit.setdefault(os.path.basename(code.co_filename), set()).add(ln)
        return mon.DISABLE
    mon.register_callback(TOOL, mon.events.LINE, line)
    from repast4py import checkpoint, context, logging, network, parameters, random, schedule, space, value_layer  # noqa: F401
    for name, mod in list(sys.modules.items()):
        fn = getattr(mod, "__file__", None)
        if not name.startswith("repast4py.") or not fn or not fn.endswith(".py"):
            continue
        t = total.setdefault(os.path.basename(fn), set())
        for top in _functions(mod, fn):
            for c in _codes(top, fn):
                t.update(ln for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno)
                mon.set_local_events(TOOL, c, mon.events.LINE)


def result():
    return {k: sorted(v) for k, v in hit.items()}, {k: sorted(v) for k, v in total.items()}
