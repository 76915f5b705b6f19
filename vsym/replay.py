"""
vsym.replay - runs harnesses on given inputs against the real code.

stdin: JSON lines {"case": name, "inputs": {...}}; stdout: one JSON line of
outcome each. Every input runs in a forked child of its own.
"""

import json
import os
import select
import signal
import sys
import time


def main() -> int:
    """Entry."""
    prop, tier, mode, timeout = sys.argv[1:5]
    from . import boot

    boot.boot(mode)
    from . import api

    module = boot.load(prop)
    cases = {x.name: x for x in api.cases_of(module, tier)}
    for line in sys.stdin:
        job = json.loads(line)
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 0)
                os.dup2(null, 1)
                res = api.run_real(cases[job["case"]], job["inputs"])
                data = json.dumps(res).encode()
                while data:
                    data = data[os.write(wfd, data) :]
            except BaseException as exc:  # pylint: disable=broad-except
                try:
                    os.write(
                        wfd,
                        json.dumps(
                            {
                                "status": "broken",
                                "text": api.exc_text(exc),
                                "fails": [],
                                "obs": [],
                                "exc": type(exc).__name__,
                            }
                        ).encode(),
                    )
                except BaseException:  # pylint: disable=broad-except
                    pass
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        chunks = []
        end = time.monotonic() + float(timeout)
        killed = False
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                killed = True
                break
            ready, _, _ = select.select([rfd], [], [], left)
            if not ready:
                continue
            data = os.read(rfd, 65536)
            if not data:
                break
            chunks.append(data)
        os.close(rfd)
        os.waitpid(pid, 0)
        raw = b"".join(chunks)
        if killed or not raw:
            res = {
                "status": "hang" if killed else "died",
                "fails": [],
                "obs": [],
                "exc": None,
                "text": "no end within the time limit" if killed else "",
            }
            print(json.dumps(res), flush=True)
        else:
            print(raw.decode(), flush=True)
    return 0


if __name__ == "__main__":
    CODE = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(CODE)
