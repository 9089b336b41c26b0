"""Replay server, run by the interpreter pycose is installed in.

Reads one JSON request per line, executes it in a forked child (fresh library
state each time) and answers with one JSON line."""
import importlib
import json
import os
import select
import signal
import sys


def main():
    repo = os.environ.get("VT_REPO", "/repo")
    sys.path.insert(0, repo)
    import pycose.messages  # noqa: F401
    import pycose.keys  # noqa: F401
    assert os.path.realpath(pycose.__file__).startswith(os.path.realpath(repo) + os.sep), pycose.__file__
    from vt import registry, concenv
    for m in sys.argv[1:]:
        importlib.import_module(m)
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    for line in sys.stdin:
        q = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                c = registry.CASES[q["prop"]][q["case"]]
                out = concenv.run_case(c, q["params"], q["values"], q["tier"])
            except BaseException as e:  # noqa: B036
                out = {"error": "harness:" + repr(e), "notes": [], "violations": [], "checks": 0, "skipped": False}
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
            os._exit(0)
        os.close(w)
        buf = b""
        ok = True
        while True:
            rd, _, _ = select.select([r], [], [], 120)
            if not rd:
                os.kill(pid, signal.SIGKILL)
                ok = False
                break
            chunk = os.read(r, 65536)
            if not chunk:
                break
            buf += chunk
        os.close(r)
        os.waitpid(pid, 0)
        if not ok or not buf:
            buf = json.dumps({"error": "timeout" if not ok else "died", "notes": [], "violations": [], "checks": 0,
                              "skipped": False}).encode()
        sys.stdout.write(buf.decode() + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
