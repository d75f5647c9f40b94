"""C35  the daemon helper starts once, stops only its own process and cleans up"""
import errno
import io
import signal
import types

import bayes_optim.utils._daemon as dmod
from bayes_optim.utils import Daemon
from engine.case import Suite

PIDFILE = "/nonexistent-verif-c35/daemon.pid"
FAR = 5_000_000  # process numbers beyond the largest possible one: a call that escapes the stand-ins reaches nothing

SUITE = Suite("C35", bounds=["arbitrary process numbers, four states of the process file, up to twelve signals until the process ends or refuses, a failing first or second fork, an arbitrary owner of the process file at exit"],
              outside=["the operating system itself: fork, kill, files and the clock are stand-ins that record what they are asked", "gevent and eventlet"],
              assumptions=["os, sys.exit, open, signal, atexit and time of the module are replaced by stand-ins with symbolic outcomes"])


class Exit(BaseException):
    pass


class World:
    """in-memory process file and process table"""

    def __init__(self, ctx, content, exists=None):
        self.ctx, self.file = ctx, content  # content None: no file
        self.signals, self.log, self.slept = [], [], 0
        self.forks, self.fork_plan, self.me = 0, [], FAR + 77
        self.dies_after, self.kill_errno = None, errno.ESRCH
        self.handlers, self.atexit = {}, []
        self.alive = False

    def install(self):
        ctx, w = self.ctx, self

        def open_(path, mode="r", *a, **k):
            if str(path) != PIDFILE:
                return File(w, None)
            if "r" in mode and "+" not in mode:
                if w.file is None:
                    raise FileNotFoundError(errno.ENOENT, "no such file")
                return File(w, w.file)
            w.file = ""
            return File(w, "", True)

        class File:
            def __init__(self, w, text, write=False):
                self.w, self.text, self.wr = w, text, write

            def read(self):
                return self.text if isinstance(self.text, str) else Text(self.text)

            def write(self, s):
                if self.wr:
                    self.w.file = s

            def close(self):
                pass

            def fileno(self):
                return 0

            def flush(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        class Text:
            """the text of a process number that is a variable"""

            def __init__(self, n):
                self.n = n

            def strip(self, *a):
                return self

            def rstrip(self, *a):
                return self

            def __int__(self):
                return self.n

            __symint__ = __int__

        def kill(pid, sig):
            w.signals.append((pid, sig))
            if w.dies_after is not None and len(w.signals) > w.dies_after:
                raise OSError(w.kill_errno, "cannot be signalled")

        def remove(path):
            ctx.check(str(path) == PIDFILE, "only the process file is removed")
            if w.file is None:
                raise FileNotFoundError(errno.ENOENT, "no such file")
            w.file = None
            w.log.append("remove")

        def fork():
            w.forks += 1
            r = w.fork_plan[w.forks - 1]
            if r is None:
                raise OSError(errno.EAGAIN, "no more processes")
            w.log.append(("fork", r))
            return r

        def exists(path):
            if str(path) == PIDFILE:
                return w.file is not None
            w.log.append(("exists", str(path)))
            return w.alive

        def exit_(code=0):
            w.log.append(("exit", code))
            raise SystemExit(code)

        rec = lambda name: (lambda *a, **k: w.log.append((name,) + a))
        fake_os = types.SimpleNamespace(
            fork=fork, kill=kill, remove=remove, unlink=remove, getpid=lambda: w.me, chdir=rec("chdir"), setsid=rec("setsid"), umask=rec("umask"),
            dup2=rec("dup2"), devnull="/dev/null", path=types.SimpleNamespace(exists=exists, isfile=exists, join=lambda *a: "/".join(a)))
        std = lambda: types.SimpleNamespace(write=lambda s: None, flush=lambda: None, fileno=lambda: 0)
        fake_sys = types.SimpleNamespace(exit=exit_, stderr=std(), stdout=std(), stdin=std(), platform="linux")
        fake_signal = types.SimpleNamespace(SIGTERM=signal.SIGTERM, SIGHUP=signal.SIGHUP, SIGINT=signal.SIGINT, signal=lambda s, h: w.handlers.__setitem__(s, h))
        fake_atexit = types.SimpleNamespace(register=lambda f, *a: w.atexit.append(f))

        def sleep(t):
            w.slept += t

        for n, v in (("os", fake_os), ("sys", fake_sys), ("signal", fake_signal), ("atexit", fake_atexit), ("open", open_)):
            ctx.patch(dmod, n, v)
        if hasattr(dmod, "time"):
            ctx.patch(dmod, "time", types.SimpleNamespace(sleep=sleep, time=lambda: 0.0))
        for n in ("fork", "kill", "remove", "unlink", "getpid", "chdir", "setsid", "umask", "dup2"):
            if hasattr(dmod, n):
                ctx.patch(dmod, n, getattr(fake_os, n))
        # should a call reach the real functions after all, it is refused
        import os as real_os

        def refuse(*a, **k):
            raise RuntimeError("a call escaped the stand-ins")

        ctx.patch(real_os, "kill", refuse)
        return w


def state(ctx, tag="file"):
    """the process file: absent, empty, unreadable or with an arbitrary number"""
    k = ctx.choice(tag, ("absent", "empty", "text", "pid"))
    if k == "pid":
        pid = ctx.int("pid", FAR, FAR + 10**6)
        return k, pid, pid
    return k, {"absent": None, "empty": "", "text": "abc\n"}[k], None


def mk(ctx, ran):
    class D(Daemon):
        def run(self, *a, **k):
            ran.append((a, k))

    return D(PIDFILE, verbose=ctx.choice("verbose", (0,)))


@SUITE.case(time_s=30)
def get_pid(ctx):
    """the process number is the one in the file, none without a usable file; nothing is changed"""
    k, content, pid = state(ctx)
    w = World(ctx, content).install()
    w.alive = ctx.choice("alive", (True, False))
    d = mk(ctx, [])
    r = d.get_pid()
    ctx.check(ctx.eq(r, pid) if k == "pid" else r is None, "the process number of the file")
    run = d.is_running()
    ctx.check(bool(run) == (k == "pid" and w.alive), "running iff the process of the file exists")
    ctx.check(not w.signals and "remove" not in w.log, "asking changes nothing")


def stopping(limit):
    def fn(ctx):
        k, content, pid = state(ctx)
        w = World(ctx, content).install()
        w.dies_after = ctx.choice("dies_after", tuple(range(0, limit)))
        w.kill_errno = ctx.choice("errno", (errno.ESRCH, errno.EPERM))
        d = mk(ctx, [])
        try:
            d.stop()
            code = None
        except SystemExit as e:
            code = e.code
        ctx.check(ctx.all([ctx.eq(p, pid) for p, _ in w.signals]) if k == "pid" else not w.signals, "only the process of the file is signalled")
        if k != "pid":
            ctx.check(w.file is None and code is None, "a file without a process number is removed, stopping is not an error")
            return
        ctx.check(len(w.signals) == w.dies_after + 1, "signals are sent until the process cannot be reached")
        ctx.check(w.signals[0][1] == signal.SIGTERM, "the process is asked to terminate first")
        if w.kill_errno == errno.ESRCH:
            ctx.check(w.file is None and code is None, "the file is removed when the process has ended")
        else:
            ctx.check(code == 1 and w.file is not None, "a process that cannot be stopped is reported and its file kept")

    fn.__doc__ = f"stopping, up to {limit} signals"
    return fn


SUITE.add("stop", stopping(3), time_s=60)
SUITE.add("stop-long", stopping(13), time_s=60)


@SUITE.case(time_s=60)
def start(ctx):
    """a second daemon is refused; otherwise the grandchild writes its number, then runs with the given arguments"""
    k, content, pid = state(ctx)
    w = World(ctx, content).install()
    plan = ctx.choice("fork", ("grandchild", "parent", "child", "fail1", "fail2"))
    p1 = ctx.int("p1", FAR, FAR + 10**6)
    w.fork_plan = {"grandchild": [0, 0], "parent": [p1, 0], "child": [0, p1], "fail1": [None, 0], "fail2": [0, None]}[plan]
    ran = []
    d = mk(ctx, ran)
    try:
        d.start(3, a=4)
        code = "none"
    except SystemExit as e:
        code = e.code
    if k == "pid":
        ctx.check(code == 1 and not ran and w.forks == 0, "a daemon that has a process file is not started again")
        ctx.check(ctx.eq(w.file, pid), "the file of the running daemon is kept")
        return
    if plan == "grandchild":
        ctx.check(code == "none" and ran == [((3,), {"a": 4})], "run is called once with the arguments of start")
        ctx.check(isinstance(w.file, str) and w.file.strip() == str(w.me), "the file holds the number of the daemon")
        ctx.check(w.forks == 2 and [x[0] for x in w.log if x[0] in ("setsid", "chdir", "umask")].count("setsid") == 1, "forked twice, in a session of its own")
        ctx.check(any(f == d.delpid for f in w.atexit), "the file is removed at exit")
        ctx.check(set(w.handlers) >= {signal.SIGTERM, signal.SIGINT}, "signals end the daemon")
        try:
            w.handlers[signal.SIGTERM](signal.SIGTERM, None)
            ctx.fail("a signal ends the daemon")
        except SystemExit:
            pass
        ctx.check(d.daemon_alive is False, "a signal marks the daemon as ended")
    else:
        ctx.check(not ran, "only the grandchild runs")
        ctx.check(code == (1 if plan.startswith("fail") else 0), "exit status")
        ctx.check(w.file is content or w.file == content, "only the daemon writes the file")


@SUITE.case(time_s=30)
def delpid(ctx):
    """at exit the file is removed by its owner only"""
    k = ctx.choice("file", ("absent", "pid"))
    owner = ctx.int("pid", FAR, FAR + 10**6)
    w = World(ctx, owner if k == "pid" else None).install()
    w.me = ctx.int("me", FAR, FAR + 10**6)
    d = mk(ctx, [])
    d.delpid()
    if k == "pid":
        ctx.check(ctx.iff(w.file is None, ctx.eq(owner, w.me)), "removed iff it belongs to this process")


@SUITE.case(time_s=60)
def restart(ctx):
    """restarting stops the process of the file, then starts a new one"""
    k, content, pid = state(ctx)
    w = World(ctx, content).install()
    w.dies_after = ctx.choice("dies_after", (0, 2))
    w.fork_plan = [0, 0]
    ran = []
    d = mk(ctx, ran)
    try:
        d.restart()
        code = None
    except SystemExit as e:
        code = e.code
    ctx.check(code is None and len(ran) == 1, "the daemon runs again")
    ctx.check(isinstance(w.file, str) and w.file.strip() == str(w.me), "the file holds the new number")
    ctx.check(ctx.all([ctx.eq(p, pid) for p, _ in w.signals]), "only the old process is signalled")
