"""Imports modbus_tk from the tree under test, in one of two modes.

plain: as any application does.
sched: the names `threading` and `time` which the modules of modbus_tk bind at import are the ones of vp.sched, so
       that the threads, locks, events and sleeps of the library are driven by the controlled scheduler.
"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKG = os.path.join(REPO, "modbus_tk") + os.sep

MODULES = ("defines", "exceptions", "hooks", "utils", "modbus", "modbus_tcp", "modbus_rtu", "modbus_rtu_over_tcp",
           "pymodbusclient", "simulator", "simulator_rpc_client")


class Lib(object):
    """the modules of modbus_tk"""
    mode = None


def load(mode="plain", simulator=False):
    # everything the library may import is loaded first with the real threading module
    import ctypes, logging, logging.handlers, socket, select, struct, re, queue, socketserver  # noqa
    import serial  # noqa
    import concurrent.futures, contextlib, functools, collections, itertools, time, threading, selectors  # noqa
    sys.pycache_prefix = "/nonexistent-pycache"   # never read a stale .pyc of the tree under test
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    lib = Lib()
    lib.mode = mode
    saved = {}
    if mode == "sched":
        from vp import sched
        for name, shim in (("threading", sched.threading_shim()), ("time", sched.time_shim())):
            saved[name] = sys.modules[name]
            sys.modules[name] = shim
    try:
        pkg = importlib.import_module("modbus_tk")
        lib.pkg = pkg
        for name in MODULES:
            if name == "simulator" and not simulator:
                continue
            setattr(lib, name, importlib.import_module("modbus_tk." + name))
    finally:
        sys.modules.update(saved)
    where = os.path.realpath(pkg.__file__)
    if not where.startswith(PKG):
        raise RuntimeError("modbus_tk was imported from %s instead of %s" % (where, PKG))
    lib.cst = lib.defines
    log = logging.getLogger("modbus_tk")
    for handler in list(log.handlers):
        log.removeHandler(handler)
    log.addHandler(logging.NullHandler())
    log.propagate = False
    log.setLevel(logging.CRITICAL)
    lib.logger = log
    return lib


def lib_frames(tb):
    """the frames of a traceback which are in modbus_tk"""
    out = []
    while tb is not None:
        code = tb.tb_frame.f_code
        if os.path.realpath(code.co_filename).startswith(PKG):
            out.append("%s:%d %s" % (os.path.basename(code.co_filename), tb.tb_lineno, code.co_name))
        tb = tb.tb_next
    return out
