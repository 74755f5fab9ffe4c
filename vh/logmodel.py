"""A model of the standard library's logging package: which record reaches
which output.  The levels may be symbolic."""
import errno
import importlib.util
import io
import logging as real
import logging.handlers as real_handlers
import sys

import psx.env as penv


def fresh(name, path):
    """A copy of a library module of its own."""
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    if name == "logging":
        m.__path__ = [path.rsplit("/", 1)[0]]
    spec.loader.exec_module(m)
    return m


class Book:
    """What was written where, and which outputs exist."""

    def __init__(self, c, unwritable=None):
        self.c = c
        self.unwritable = unwritable    # can this file not be opened?
        self.written = []               # (handler, level, message)
        self.opened = []                # handlers
        self.root = None
        self.ceiling = 0                # logging.disable()

    def stubs(self):
        """Fresh logging and logging.handlers modules: the model, or, when
        a run is repeated on concrete values, the library itself with its
        file and socket operations cut off."""
        if not self.c.symbolic:
            return self.library()
        book = self

        class Filterer:
            def __init__(self):
                self.filters = []

            def addFilter(self, f):
                if f not in self.filters:
                    self.filters.append(f)

            def removeFilter(self, f):
                if f in self.filters:
                    self.filters.remove(f)

            def filter(self, record):
                for f in self.filters:
                    ok = f.filter(record) if hasattr(f, "filter") else \
                        f(record)
                    if not ok:
                        return False
                return True

        class Handler(Filterer):
            kind = "other"

            def __init__(self, level=0):
                Filterer.__init__(self)
                self.level = number(level)
                self.formatter = None
                book.opened.append(self)

            def setLevel(self, level):
                self.level = number(level)

            def setFormatter(self, f):
                self.formatter = f

            def handle(self, record):
                if self.filter(record):
                    self.emit(record)
                    return True
                return False

            def emit(self, record):
                book.written.append((self, record.levelno,
                                     record.getMessage()))

            def flush(self):
                pass

            def close(self):
                pass

            def acquire(self):
                pass

            def release(self):
                pass

        class StreamHandler(Handler):
            kind = "console"

            def __init__(self, stream=None):
                Handler.__init__(self)
                self.stream = stream

        class NullHandler(Handler):
            kind = "null"

            def handle(self, record):
                pass

            def emit(self, record):
                pass

        class FileHandler(StreamHandler):
            kind = "file"
            maxBytes = 0
            backupCount = 0

            def __init__(self, filename, mode="a", encoding=None,
                         delay=False, errors=None):
                if book.unwritable is not None and \
                   book.unwritable(filename):
                    raise penv.oserror(errno.EACCES)
                StreamHandler.__init__(self, None)
                self.path = filename
                self.mode = mode

        class WatchedFileHandler(FileHandler):
            pass

        class RotatingFileHandler(FileHandler):
            def __init__(self, filename, mode="a", maxBytes=0,
                         backupCount=0, encoding=None, delay=False,
                         errors=None):
                FileHandler.__init__(self, filename, mode)
                self.maxBytes = maxBytes
                self.backupCount = backupCount

        names = real_handlers.SysLogHandler.facility_names
        lib = real_handlers.SysLogHandler

        class SysLogHandler(Handler):
            kind = "syslog"
            ident = ""
            append_nul = True
            facility_names = names

            def __init__(self, address=("localhost", 514),
                         facility=lib.LOG_USER, socktype=None):
                # a missing socket is not reported
                Handler.__init__(self)
                self.address = address
                self.facility = names[facility] \
                    if isinstance(facility, str) else facility

        for k in dir(lib):
            if k.startswith("LOG_"):
                setattr(SysLogHandler, k, getattr(lib, k))

        class Record:
            def __init__(self, name, level, msg, args, exc, extra):
                self.name = name
                self.levelno = level
                self.msg = msg
                self.args = args
                self.exc_info = exc
                if extra is not None:
                    for k in extra:
                        if k in ("message", "asctime", "msg", "args",
                                 "name", "levelno"):
                            raise KeyError(k)
                        setattr(self, k, extra[k])

            def getMessage(self):
                return self.msg % self.args if self.args else self.msg

        def number(level):
            if isinstance(level, str):
                return getattr(real, level)
            return level

        last = StreamHandler()
        last.level = 30
        book.opened.remove(last)

        class Logger(Filterer):
            def __init__(self, name, parent, level=0):
                Filterer.__init__(self)
                self.name = name
                self.parent = parent
                self.level = level
                self.handlers = []
                self.propagate = True
                self.disabled = False

            def setLevel(self, level):
                self.level = number(level)

            def getEffectiveLevel(self):
                lg = self
                while lg is not None:
                    if lg.level != 0:
                        return lg.level
                    lg = lg.parent
                return 0

            def isEnabledFor(self, level):
                if self.disabled or book.ceiling >= level:
                    return False
                return level >= self.getEffectiveLevel()

            def addHandler(self, h):
                if h not in self.handlers:
                    self.handlers.append(h)

            def removeHandler(self, h):
                if h in self.handlers:
                    self.handlers.remove(h)

            def hasHandlers(self):
                lg = self
                while lg is not None:
                    if len(lg.handlers) > 0:
                        return True
                    lg = lg.parent if lg.propagate else None
                return False

            def getChild(self, suffix):
                return getLogger(suffix if self is book.root else
                                 self.name + "." + suffix)

            def log(self, level, msg, *args, exc_info=None, extra=None,
                    stack_info=False, stacklevel=1):
                if self.isEnabledFor(level):
                    self.handle(Record(self.name, level, msg, args,
                                       exc_info, extra))

            def handle(self, record):
                if self.disabled or not self.filter(record):
                    return
                found = 0
                lg = self
                while lg is not None:
                    for h in list(lg.handlers):
                        found += 1
                        if record.levelno >= h.level:
                            h.handle(record)
                    lg = lg.parent if lg.propagate else None
                if found == 0 and record.levelno >= last.level:
                    last.handle(record)

            def debug(self, msg, *args, **kw):
                self.log(10, msg, *args, **kw)

            def info(self, msg, *args, **kw):
                self.log(20, msg, *args, **kw)

            def warning(self, msg, *args, **kw):
                self.log(30, msg, *args, **kw)

            warn = warning

            def error(self, msg, *args, **kw):
                self.log(40, msg, *args, **kw)

            def exception(self, msg, *args, **kw):
                self.log(40, msg, *args, **kw)

            def critical(self, msg, *args, **kw):
                self.log(50, msg, *args, **kw)

            fatal = critical

        root = Logger("root", None, 30)
        self.root = root
        table = {}

        def getLogger(name=None):
            if not name or name == "root":
                return root
            if name not in table:
                parent = root
                if "." in name:
                    parent = getLogger(name.rsplit(".", 1)[0])
                table[name] = Logger(name, parent)
            return table[name]

        def basicConfig(**kw):
            if kw.get("force"):
                root.handlers = []
            if len(root.handlers) > 0:
                return
            hs = kw.get("handlers")
            if hs is None:
                if kw.get("filename") is not None:
                    hs = [FileHandler(kw["filename"],
                                      kw.get("filemode", "a"))]
                else:
                    hs = [StreamHandler(kw.get("stream"))]
            for h in hs:
                root.addHandler(h)
            if kw.get("level") is not None:
                root.setLevel(kw["level"])

        def disable(level=50):
            book.ceiling = level

        def ready():
            if len(root.handlers) == 0:
                basicConfig()

        def module(fn):
            def call(*args, **kw):
                ready()
                getattr(root, fn)(*args, **kw)
            return call

        handlers = penv.StubModule(
            "logging.handlers", None,
            RotatingFileHandler=RotatingFileHandler,
            WatchedFileHandler=WatchedFileHandler,
            SysLogHandler=SysLogHandler)
        top = {"handlers": handlers, "root": root, "getLogger": getLogger,
               "basicConfig": basicConfig, "disable": disable,
               "Logger": Logger, "Handler": Handler,
               "StreamHandler": StreamHandler, "FileHandler": FileHandler,
               "NullHandler": NullHandler, "LogRecord": Record,
               "lastResort": last}
        for fn in ("debug", "info", "warning", "warn", "error", "exception",
                   "critical", "log"):
            top[fn] = module(fn)
        logging = penv.StubModule("logging", real, **top)
        return {"logging": logging, "logging.handlers": handlers}

    def library(self):
        book = self
        logging = fresh("logging", real.__file__)
        kept = {n: sys.modules.get(n) for n in ("logging",
                                                "logging.handlers")}
        sys.modules["logging"] = logging
        try:
            handlers = fresh("logging.handlers", real_handlers.__file__)
        finally:
            for n, m in kept.items():
                sys.modules[n] = m
        logging.handlers = handlers
        logging.raiseExceptions = False
        self.root = logging.root

        def emitter(kind):
            def emit(h, record):
                book.written.append((h, record.levelno, record.getMessage()))
            return emit

        def tag(cls, kind):
            cls.kind = kind
            cls.emit = emitter(kind)
        logging.Handler.kind = "other"
        logging.NullHandler.kind = "null"
        tag(logging.StreamHandler, "console")
        tag(logging.FileHandler, "file")
        tag(handlers.BaseRotatingHandler, "file")
        tag(handlers.WatchedFileHandler, "file")
        tag(handlers.SysLogHandler, "syslog")

        def file_init(h, filename, mode="a", encoding=None, delay=False,
                      errors=None):
            if book.unwritable is not None and book.unwritable(filename):
                raise penv.oserror(errno.EACCES)
            logging.StreamHandler.__init__(h, io.StringIO())
            h.path = filename
            h.mode = mode
            book.opened.append(h)
        logging.FileHandler.__init__ = file_init

        handlers.SysLogHandler.createSocket = \
            lambda h: book.opened.append(h)
        handlers.SysLogHandler.close = lambda h: None
        return {"logging": logging, "logging.handlers": handlers}

    def outputs(self):
        """The handlers records of the paf package can reach."""
        return [h for h in self.root.handlers if h.kind != "null"]
