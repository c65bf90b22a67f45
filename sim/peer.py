"""Interpreters with another hash seed.

Hash randomisation is fixed when an interpreter starts, so a run that is to be repeated under another
hash seed is handed to a second interpreter. It works like the explorer: it holds the
imported package and forks one simulated process per request.
"""
import os
import pickle
import struct
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _put(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack(">Q", len(data)) + data)
    f.flush()


def _get(f):
    head = f.read(8)
    if len(head) < 8:
        raise EOFError
    return pickle.loads(f.read(struct.unpack(">Q", head)[0]))


class Peer:
    def __init__(self, hashseed, module):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), module],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env)

    def run(self, *args):
        """module.in_peer(*args) in the other interpreter."""
        _put(self.p.stdin, args)
        ok, val = _get(self.p.stdout)
        if not ok:
            from sim.core import HarnessError
            raise HarnessError("peer: " + val)
        return val


def main():
    sys.path.insert(0, VERIF)
    repo = os.environ.get("VERIF_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(1, repo)
    out = os.fdopen(os.dup(1), "wb")
    inp = os.fdopen(os.dup(0), "rb")
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    import importlib
    import traceback
    from sim import host
    mod = importlib.import_module(sys.argv[1])
    mod.load_all()
    host.warm()
    while True:
        try:
            args = _get(inp)
        except EOFError:
            return
        try:
            _put(out, (True, mod.in_peer(*args)))
        except Exception:
            _put(out, (False, traceback.format_exc()))


if __name__ == "__main__":
    main()
