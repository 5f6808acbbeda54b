"""Interpreters in other environments that perform the same operations as this process."""
import atexit, os, pickle, struct, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORLDS = {
    "optimised, UTC+14, other hash seed, debug log, short print options": (["-OO"], {"PYTHONHASHSEED": "1", "VERIF_TZ": "XXX-14", "LC_ALL": "C.utf8", "VERIF_WORLD": "a"}),
    "ASCII locale, UTC-9:30, other hash seed, numpy warnings": ([], {"PYTHONHASHSEED": "4242", "VERIF_TZ": "YYY9:30", "LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0",
                                                            "VERIF_WORLD": "b"}),
}
_procs = {}


def start(name):
    args, env = WORLDS[name]
    p = subprocess.Popen([sys.executable] + args + ["-B", os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env={**os.environ, **env}, cwd="/")
    _procs[name] = (os.getpid(), p)
    return p


def ask(name, what):
    """Result of the function named in what, run in the other interpreter."""
    pid, p = _procs.get(name, (None, None))
    if pid != os.getpid() or p.poll() is not None:
        p = start(name)
    data = pickle.dumps(what)
    p.stdin.write(struct.pack("<Q", len(data)) + data)
    p.stdin.flush()
    head = p.stdout.read(8)
    if len(head) < 8:
        raise RuntimeError(f"the interpreter for {name} ended")
    ok, res = pickle.loads(p.stdout.read(struct.unpack("<Q", head)[0]))
    if not ok:
        raise RuntimeError(f"the interpreter for {name} failed: {res}")
    return res


@atexit.register
def stop():
    for pid, p in _procs.values():
        if pid == os.getpid():
            p.stdin.close()
            p.wait(5)


def serve():
    import importlib, traceback
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    sys.path.insert(0, HERE)
    from lib import env  # noqa: F401
    import logging, warnings
    import numpy as np
    if os.environ["VERIF_WORLD"] == "a":
        logging.disable(logging.NOTSET)
        logging.basicConfig(level=1, handlers=[logging.StreamHandler(open(os.devnull, "w"))])
        np.set_printoptions(precision=2, threshold=3, suppress=True, linewidth=20)
    else:
        np.seterr(all="warn")
        warnings.resetwarnings()
        warnings.simplefilter("always")
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    while True:
        head = sys.stdin.buffer.read(8)
        if len(head) < 8:
            return
        module, function, args = pickle.loads(sys.stdin.buffer.read(struct.unpack("<Q", head)[0]))
        try:
            res = (True, getattr(importlib.import_module(module), function)(*args))
        except BaseException:
            res = (False, traceback.format_exc())
        data = pickle.dumps(res)
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()


if __name__ == "__main__":
    serve()
