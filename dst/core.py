"""Deterministic simulator core.

One *scenario* (a JSON document) describes one simulated run: the simulated
processes, the operations each performs, the faults attached to operations and
the scheduling choices.  Running a scenario is a pure function of the document
and of the code under test.

Simulated processes are forked from a warmed-up worker, so each has its own
memory, file descriptors and locks, and can be killed at any seam; only what it
left on disk (or committed to the database server) survives.  At most one of
them runs at any time: each parks at every seam crossing (SQL statement,
commit, storage call, sleep, operation boundary) and the worker's scheduler
decides who goes on, in virtual time.
"""

import ctypes
import hashlib
import gc
import json
import os
import random
import select
import shutil
import signal
import socket
import struct
import sys
import tempfile
import time
import traceback

REAL_MONO = time.monotonic

IO_KINDS = {"io_crash": 1, "io_torn": 2, "io_eio": 3, "io_enospc": 4, "io_short": 5}


class HarnessError(Exception):
    """The simulator itself went wrong (never a verdict on the code)."""


class Shim:
    """Python side of the LD_PRELOAD seam."""

    def __init__(self):
        path = os.environ.get("DST_SHIM")
        if not path:
            raise HarnessError("the I/O shim is not preloaded")
        with open("/proc/self/maps") as f:
            if path not in f.read():
                raise HarnessError("the I/O shim is not preloaded")
        lib = ctypes.CDLL(path)
        lib.simio_clock.argtypes = [ctypes.c_int, ctypes.c_double]
        lib.simio_arm.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int]
        lib.simio_root.argtypes = [ctypes.c_char_p]
        lib.simio_steps.restype = ctypes.c_long
        lib.simio_disarm.restype = ctypes.c_long
        lib.simio_lastpath.restype = ctypes.c_char_p
        lib.simio_lastcall.restype = ctypes.c_char_p
        self.lib = lib
        self._keep = (ctypes.CFUNCTYPE(None, ctypes.c_double)(_c_sleep), ctypes.CFUNCTYPE(None)(_c_yield))

    def hook(self, sleeping, yielding):
        self.lib.simio_sleepcb(self._keep[0] if sleeping else None)
        self.lib.simio_yieldcb(self._keep[1] if yielding else None)

    def root(self, p):
        self.lib.simio_root(os.fsencode(p))

    def arm(self, n, kind, sticky=0):
        self.lib.simio_arm(n, IO_KINDS[kind], sticky)

    def count(self, on):
        self.lib.simio_count(1 if on else 0)

    def steps(self):
        return self.lib.simio_steps()

    def disarm(self):
        return self.lib.simio_disarm()

    def clock(self, t):
        self.lib.simio_clock(1, float(t))

    def last(self):
        return self.lib.simio_lastcall().decode(), os.fsdecode(self.lib.simio_lastpath())


def _c_sleep(dur):
    if SIM is not None:
        SIM.sleep(round(dur, 6), "busy")


def _c_yield():
    if SIM is not None:
        SIM.seam("io")


_real_sleep = time.sleep


def _sleep(d):
    if SIM is None:
        _real_sleep(d)
    else:
        SIM.sleep(d)


def install_sleep():
    """Before the code under test is imported: sleeping is simulated."""
    time.sleep = _sleep


_shim = None


def shim():
    global _shim
    if _shim is None:
        _shim = Shim()
    return _shim


# --------------------------------------------------------------------------
# messages between worker and simulated process


def _send(sock, obj):
    b = json.dumps(obj, default=str).encode()
    sock.sendall(struct.pack("<I", len(b)) + b)


def _recvn(sock, n):
    buf = b""
    while len(buf) < n:
        c = sock.recv(n - len(buf))
        if not c:
            return None
        buf += c
    return buf


def _recv(sock):
    h = _recvn(sock, 4)
    if h is None:
        return None
    b = _recvn(sock, struct.unpack("<I", h)[0])
    return None if b is None else json.loads(b)


# --------------------------------------------------------------------------
# inside a simulated process


class SimProcess:
    """The simulator as seen from inside a simulated process."""

    def __init__(self, sock, name):
        self.sock = sock
        self.name = name
        self.now = 0.0
        self.skew = 0.0
        self.fault = None
        self.count = 0
        self.parking = True
        self.log = []
        self.busy_depth = 0
        self.phase = None

    # -- parking ---------------------------------------------------------
    def _park(self, msg):
        _send(self.sock, msg)
        r = _recv(self.sock)
        if r is None:
            os._exit(70)
        self.now = r["now"]
        shim().clock(self.now + self.skew)
        return r

    def seam(self, kind, detail=""):
        """Cross a seam.  Returns the fault to enact here, or None."""
        if not self.parking:
            return None
        fired = None
        f = self.fault
        if f is not None and not f["kind"].startswith("io_"):
            on = f.get("on")
            if on is None or kind in on:
                self.count += 1
                if self.count == f["at"]:
                    fired = f
                    self.fault = None
                    if f.get("repeat", 0) > 0:
                        g = dict(f)
                        g["repeat"] -= 1
                        g["at"] = 1
                        self.fault = g
                        self.count = 0
        m = {"t": "seam", "k": kind, "d": str(detail)[:120]}
        if fired is not None:
            m["f"] = fired["kind"]
        self._park(m)
        if fired is not None and fired["kind"] == "crash":
            os._exit(77)
        return fired

    def sleep(self, dur, what="sleep"):
        if not self.parking:
            return
        fired = None
        f = self.fault
        if f is not None and f["kind"] == "crash" and (f.get("on") is None or what in f["on"]):
            self.count += 1
            if self.count == f["at"]:
                fired = f
                self.fault = None
        m = {"t": "sleep", "dur": float(dur), "k": what}
        if fired:
            m["f"] = "crash"
        self._park(m)
        if fired:
            os._exit(77)

    def note(self, what, n=1):
        """Count a probe (a rare condition that was reached)."""
        if self.parking:
            _send(self.sock, {"t": "note", "w": what, "n": n})


SIM = None  # the SimProcess of this process, when it is a simulated one


def sim():
    return SIM


class Raised:
    """Outcome of an operation that raised."""


def _child_main(sock, name, fn, ops, first, setup, skew, root, now, opts):
    global SIM
    try:
        # the garbage collector runs at the same points whatever this worker did before
        gc.freeze()
        gc.collect()
        SIM = SimProcess(sock, name)
        SIM.skew = skew
        SIM.now = now
        sh = shim()
        sh.root(root)
        sh.clock(now + skew)
        sh.hook(True, opts.get("ioyield", False))
        state = {}
        if setup is not None:
            setup(state)
        for i in range(first, len(ops)):
            op = ops[i]
            SIM._park({"t": "start", "i": i})
            f = op.get("fault")
            SIM.phase = None
            SIM.fault = dict(f) if f else None
            SIM.count = 0
            io = f is not None and f["kind"].startswith("io_")
            if io:
                sh.arm(f["at"], f["kind"], f.get("sticky", 0))
            else:
                sh.count(True)
            try:
                val = fn(state, op)
                out = {"s": "ok", "v": val}
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f"{os.path.basename(t.filename)}:{t.name}" for t in tb][-4:]
                out = {"s": "exc", "e": exc_name(e), "m": str(e)[:400], "w": where, "ph": SIM.phase}
                if os.environ.get("DST_TB"):
                    traceback.print_exc()
                e = None
            steps = sh.steps()
            fired = sh.disarm()
            SIM.fault = None
            m = {"t": "end", "i": i, "o": out, "io": steps}
            if io and fired:
                m["f"] = f["kind"]
                m["fn"] = fired
                m["at"] = sh.last()[0]
            SIM._park(m)
        _send(sock, {"t": "bye"})
    except BaseException as e:  # harness fault inside the simulated process
        try:
            _send(sock, {"t": "harness", "m": "".join(traceback.format_exception(e))[-3000:]})
        except BaseException:
            pass
        os._exit(71)
    os._exit(0)


def exc_name(e):
    return type(e).__name__


# --------------------------------------------------------------------------
# the worker's side: scheduler for one run


class Proc:
    def __init__(self, name, fn, ops, setup, restart, skew):
        self.name = name
        self.fn = fn
        self.ops = ops
        self.setup = setup
        self.restart = restart
        self.skew = skew
        self.pid = None
        self.sock = None
        self.pending = None  # last message received while parked
        self.ready_at = 0.0
        self.done = False
        self.cur = None
        self.next = 0
        self.lives = 0
        self.blocked = False


class Run:
    """One simulated run (worker side)."""

    HANG_S = 120.0

    def __init__(self, scn, base=None):
        self.scn = scn
        self.rng = random.Random(scn.get("sched_seed", 0))
        self.given = list(scn["choices"]) if scn.get("choices") is not None else None
        self.choices = []
        self.dir = tempfile.mkdtemp(prefix="run", dir=base)
        self.now = float(scn.get("t0", 1750000000.0))
        self.t_first = self.now
        self.seq = 0
        self.events = []  # canonical event log (digest = determinism check)
        self.history = []  # operation records
        self.faults = {}
        self.notes = {}
        self.seams = 0
        self.parks = 0
        self.crashes = 0
        self.violations = []
        self.blocker = None  # optional: callable(pid)->bool, is that process blocked on a lock?
        self.procs = []
        self.max_seams = scn.get("max_seams", 20000)
        self.on_event = None
        self.tick = None  # optional: called with the simulated time whenever it changes
        self.gone = None  # optional: called with the pid of a process that ended
        self.stuck = 0
        self.unstick = None  # optional: called when all processes are blocked

    # -- choices -------------------------------------------------------------
    def choose(self, n):
        if n <= 1:
            return 0
        if self.given is not None:
            c = self.given.pop(0) % n if self.given else 0
        else:
            # biased: often continue with the same process (choice 0)
            c = 0 if self.rng.random() < self.scn.get("stay", 0.4) else self.rng.randrange(n)
        self.choices.append(c)
        return c

    def event(self, *what):
        self.seq += 1
        self.events.append(" ".join(str(w) for w in what))

    def violation(self, cls, msg):
        self.violations.append({"class": cls, "msg": str(msg)[:2000]})

    # -- simulated processes ---------------------------------------------------
    def add(self, name, fn, ops, setup=None, restart=True, skew=0.0):
        p = Proc(name, fn, ops, setup, restart, skew)
        self.procs.append(p)
        return p

    def _fork(self, p):
        a, b = socket.socketpair()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            a.close()
            for q in self.procs:
                if q.sock is not None:
                    q.sock.close()
            os.chdir(self.dir)
            if not os.environ.get("DST_STDOUT"):
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get("DST_TB"):
                    os.dup2(dn, 2)
            _child_main(b, p.name, p.fn, p.ops, p.next, p.setup, p.skew, self.dir, self.now, self.scn)
            os._exit(0)
        b.close()
        p.pid = pid
        p.sock = a
        p.lives += 1
        p.pending = None
        p.cur = None
        p.blocked = False
        p.ready_at = self.now

    def _dead(self, p):
        """The process ended without saying goodbye: a crash."""
        _, status = os.waitpid(p.pid, 0)
        p.sock.close()
        p.sock = None
        code = os.waitstatus_to_exitcode(status)
        if self.gone:
            self.gone(p.pid)
        p.pid = None
        if code in (77, 78, 79):
            kind = {77: "crash", 78: "io_crash", 79: "io_torn"}[code]
            if code != 77:
                self.faults[kind] = self.faults.get(kind, 0) + 1
            self.crashes += 1
            self.event(p.name, "CRASH", kind)
            if p.cur is not None:
                rec = p.cur
                rec.update(s="crash", end=self.seq, t1=self.now)
                p.next = rec["i"] + 1
                p.cur = None
            if p.restart and p.next < len(p.ops):
                self._fork(p)
                self._await(p)
            else:
                p.done = True
            if self.on_event:
                self.on_event(p, "crash")
        else:
            # the code under test took the process down itself
            self.event(p.name, "DIED", code)
            self.violation("process-died", f"{p.name} died with exit code {code} in {p.cur and p.cur['op']}")
            p.done = True

    def _await(self, p):
        """Wait until p parks (or ends, or blocks on a database lock)."""
        t_end = REAL_MONO() + self.HANG_S
        poll = 0.02
        while True:
            r, _, _ = select.select([p.sock], [], [], poll if self.blocker else 1.0)
            if r:
                m = _recv(p.sock)
                if m is None:
                    p.blocked = False
                    self._dead(p)
                    return
                if m["t"] == "note":
                    self.notes[m["w"]] = self.notes.get(m["w"], 0) + m.get("n", 1)
                    continue
                if m["t"] == "harness":
                    raise HarnessError(f"{p.name}: {m['m']}")
                if m["t"] == "bye":
                    os.waitpid(p.pid, 0)
                    if self.gone:
                        self.gone(p.pid)
                    p.sock.close()
                    p.sock = None
                    p.pid = None
                    p.done = True
                    p.blocked = False
                    return
                p.blocked = False
                p.pending = m
                self._handle(p, m)
                return
            if self.blocker and self.blocker(p.pid):
                p.blocked = True
                return
            poll = min(poll * 1.5, 0.5)
            if REAL_MONO() > t_end:
                self.event(p.name, "HANG")
                self.violation("hang", f"{p.name} made no progress in {p.cur and p.cur['op']}")
                os.kill(p.pid, signal.SIGKILL)
                os.waitpid(p.pid, 0)
                p.sock.close()
                p.sock = None
                p.pid = None
                p.done = True
                return

    def _handle(self, p, m):
        t = m["t"]
        f = m.get("f")
        if f:
            self.faults[f] = self.faults.get(f, 0) + 1
        if t == "start":
            p.cur = {"c": p.name, "i": m["i"], "op": p.ops[m["i"]], "start": None, "s": None}
        elif t == "seam":
            self.seams += 1
            self.event(p.name, m["k"], m["d"], f or "")
        elif t == "sleep":
            p.ready_at = self.now + max(0.0, m["dur"])
            self.parks += 1
            if m["k"] == "busy" and not f:
                self.notes["busy_wait"] = self.notes.get("busy_wait", 0) + 1
            else:
                self.event(p.name, "sleep", m["dur"], f or "")
        elif t == "end":
            rec = p.cur
            o = m["o"]
            self.event(p.name, "end", m["i"], o["s"], o.get("e", ""), f or "")
            rec.update(s=o["s"], v=o.get("v"), e=o.get("e"), m=o.get("m"), w=o.get("w"), ph=o.get("ph"), end=self.seq,
                       t1=self.now, io=m.get("io"), fired=f, iocall=m.get("at"))
            p.next = m["i"] + 1
            p.cur = None
            if self.on_event:
                self.on_event(p, "end")

    def go(self):
        """Run all added processes to completion under the scheduler."""
        procs = [p for p in self.procs if not p.done and p.pid is None]
        for p in procs:
            self._fork(p)
            self._await(p)
        last = None
        while True:
            live = [p for p in self.procs if not p.done]
            if not live:
                break
            # processes blocked on a server lock may have become unblocked
            for p in live:
                if p.blocked:
                    self._await(p)
            live = [p for p in self.procs if not p.done]
            runnable = [p for p in live if not p.blocked]
            if not live:
                break
            if not runnable:
                self._stuck(live)
                continue
            ready = [p for p in runnable if p.ready_at <= self.now]
            if not ready:
                self.now = min(p.ready_at for p in runnable)
                ready = [p for p in runnable if p.ready_at <= self.now]
            if last in ready:  # choice 0 = keep going
                ready.remove(last)
                ready.insert(0, last)
            p = ready[self.choose(len(ready))]
            last = p
            self.now += 0.001
            if p.pending and p.pending["t"] == "start":
                self.event(p.name, "start", p.pending["i"])
                p.cur["start"] = self.seq
                p.cur["t0"] = self.now
                self.history.append(p.cur)
            if self.tick:
                self.tick(self.now)
            _send(p.sock, {"now": self.now})
            self._await(p)
            if self.seams > self.max_seams or self.parks > 20 * self.max_seams:
                self.violation("livelock", "no end after %d seam crossings" % self.seams)
                self.kill()
                break
        self.procs = []

    def _stuck(self, live):
        if self.unstick and self.stuck < 50:
            self.stuck += 1
            self.unstick()
            return
        self.violation("deadlock", "all processes blocked: " + ", ".join(p.name for p in live))
        self.kill()

    def kill(self):
        for p in self.procs:
            if p.pid is not None:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(p.pid, 0)
                p.sock.close()
                p.sock = None
                p.pid = None
            p.done = True

    # -- observers -----------------------------------------------------------
    def observe(self, fn, *args, timeout=120):
        """Run fn(*args) in a fresh forked process; return ("ok", value) or
        ("exc", type, message)."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for q in self.procs:
                    if q.sock is not None:
                        q.sock.close()
                gc.freeze()
                gc.collect()
                os.chdir(self.dir)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get("DST_TB"):
                    os.dup2(dn, 2)
                shim().root(self.dir)
                shim().clock(self.now)
                try:
                    out = ["ok", fn(*args)]
                except Exception as e:
                    if os.environ.get("DST_TB"):
                        traceback.print_exc()
                    out = ["exc", exc_name(e), str(e)[:600]]
                b = json.dumps(out, default=str).encode()
                while b:
                    n = os.write(w, b)
                    b = b[n:]
            except BaseException as e:
                try:
                    os.write(w, json.dumps(["harness", "".join(traceback.format_exception(e))[-2000:]]).encode())
                except BaseException:
                    pass
            os._exit(0)
        os.close(w)
        buf = b""
        t_end = REAL_MONO() + timeout
        while True:
            rr, _, _ = select.select([r], [], [], max(0.0, t_end - REAL_MONO()))
            if not rr:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                return ["exc", "Hang", "observer made no progress"]
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
        os.close(r)
        os.waitpid(pid, 0)
        if not buf:
            return ["exc", "ProcessDied", "observer process died"]
        out = json.loads(buf)
        if out[0] == "harness":
            raise HarnessError(out[1])
        return out

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(e.encode())
            h.update(b"\n")
        for r in self.history:
            h.update(json.dumps([r["c"], r["i"], r["s"], r.get("e"), r.get("v")], sort_keys=True).encode())
        for v in self.violations:
            h.update(v["class"].encode())
        return h.hexdigest()[:24]

    def trace_key(self):
        """Interleaving measure: hash of the sequence of (process, seam, fault)."""
        h = hashlib.sha256()
        for e in self.events:
            h.update(e.encode())
        return h.hexdigest()[:16]

    def cleanup(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def result_of(run):
    return {
        "violations": run.violations,
        "digest": run.digest(),
        "trace": run.trace_key(),
        "faults": run.faults,
        "notes": run.notes,
        "seams": run.seams,
        "crashes": run.crashes,
        "ops": len(run.history),
        "ok_ops": sum(1 for r in run.history if r["s"] == "ok"),
        "simt": run.now - run.t_first,
        "choices": run.choices,
    }
