"""Runs the interactive client of the code in the current directory in a
process of its own, on the stand-in for the transport library."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def pafc(argv, lines, version=3, env={}, extra=""):
    """(exit status, output, addresses connected to, requests)"""
    fd, log = tempfile.mkstemp()
    os.close(fd)
    try:
        p = subprocess.run(
            [sys.executable, "-u", os.path.join(HERE, "shell.py"), log,
             str(version), extra] + argv, input="".join(
                 line + "\n" for line in lines), text=True, timeout=60,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            env=dict(os.environ, **env))
        events = [json.loads(line) for line in open(log)]
    finally:
        os.unlink(log)
    return (p.returncode, p.stdout,
            [e for e in events if isinstance(e, str)],
            [e for e in events if isinstance(e, dict)])


def child(log, version, extra, *argv):
    sys.path.insert(0, HERE)
    import peer
    import runpy
    out = open(log, "a")

    def note(event):
        out.write(json.dumps(event) + "\n")
        out.flush()

    def answer(conn, msg):
        given = json.loads(extra).get(msg["ta-cmd"]) if extra else None
        if given is not None and msg["msg-type"] == "request":
            return [dict(peer.reply(msg, g[0]), **g[1]) for g in given]
        return peer.usual(conn, msg, int(version))

    client = peer.install(answer, note)
    connect = peer.xcm.connect

    def connecting(addr, flags=0, attrs={}):
        note(addr)
        return connect(addr, flags, attrs)

    peer.xcm.connect = connecting
    sys.argv = ["pafc"] + list(argv)
    runpy.run_path("app/pafc", run_name="__main__")


if __name__ == "__main__":
    child(*sys.argv[1:])
