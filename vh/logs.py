"""Where log messages go: the server program from its command line to the
outputs."""
import sys

import vh.daemon as daemon

CALLS = {"debug": 10, "info": 20, "warning": 30, "exception": 40}
LEVELS = {"debug": 10, "info": 20, "warning": 30, "error": 40,
          "critical": 50}


def routing(c, source, calls):
    """Start with anything, then log.  source: where the configuration is,
    the command line or a file."""
    console = c.choice("console", [False, True])
    syslog = c.choice("syslog", [True, False])
    file = c.string("path", 2) if c.choice("file", [False, True]) else None
    sock = c.string("socket", 2) if c.choice("own", [False, True]) else None
    name = c.choice("level", [None] + list(LEVELS))
    level = LEVELS[name] if name is not None else 20
    argv = ["pafd"]
    doc = None
    if source == "options":
        if console:
            argv.append("-s")
        if not syslog:
            argv.append("-n")
        if file is not None:
            argv += ["-o", file]
        if sock is not None:
            argv += ["-u", sock]
        if name is not None:
            argv += ["-l", name]
        argv.append("ux:x")
    else:
        log = {"console": console, "syslog": syslog}
        if file is not None:
            log["log_file"] = file
        if sock is not None:
            log["syslog_socket"] = sock
        if name is not None:
            log["filter"] = name
        doc = {"domains": [{"sockets": ["ux:x"]}], "log": log}
        argv += ["-f", "/nowhere/conf"]
    p = daemon.Program(c, doc)
    there = c.choice("there", [True, False])
    where = "/dev/log" if sock is None else sock
    if not there:
        p.absent = lambda path: c.eq(path, where)
    p.locked = file is not None and c.choice("locked", [False, True])
    p.run(argv)
    if p.outcome == 1:
        c.check(p.locked or syslog and not there,
                "configuration refused without reason")
        c.check(len(p.out) > 0, "refused silently")
        c.check(p.env.servers == [], "opened a socket before")
        c.reach("refused")
        return
    c.check(p.outcome == "running", "did not start", p.outcome)
    c.check(not p.locked, "an unwritable log file passed over")
    c.check(there or not syslog, "a missing system log socket passed over")
    wanted = {"console": console, "file": file is not None,
              "syslog": syslog}
    lg = p.m.load("paf.logging")
    for i in range(calls):
        fn = c.choice("call", list(CALLS))
        text = c.string("text", 3)
        before = len(p.book.written)
        if fn == "exception":
            lg.exception(text)
        else:
            cat = c.choice("category", list(lg.LogCategory))
            getattr(lg, fn)(text, cat)
        got = p.book.written[before:]
        if CALLS[fn] < level:
            c.check(got == [], "logged in spite of its level", fn)
            c.reach("dropped")
            continue
        n = 0
        for k, on in wanted.items():
            there = len([h for h, _, _ in got if h.kind == k])
            c.check(there == (1 if on else 0),
                    "written %d times to %s" % (there, k))
            n += there
        c.check(len(got) == n, "logged elsewhere")
        for h, lv, msg in got:
            c.check(lv == CALLS[fn], "level altered")
            c.check(c.eq(msg, text), "message altered")
            if h.kind == "file":
                c.check(c.eq(h.path, file), "wrong log file")
            elif h.kind == "console":
                c.check(h.stream is None or h.stream is sys.stderr,
                        "console is not standard error")
            elif h.kind == "syslog":
                c.check(c.eq(h.address, where), "wrong system log socket")
        c.reach("logged")
