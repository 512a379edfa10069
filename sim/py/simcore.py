"""Deterministic simulator for the Python part: threads, locks, clocks, sleeps and signals behind one seeded scheduler.

Exactly one simulated thread runs at a time (real OS threads, baton passing). Control moves only at the opcodes of the code
under test (sys.settrace), at lock operations, sleeps and stub calls, and where it goes is a recorded choice. Choice 0 is
always the plain outcome, so a truncated choice list is a quieter run."""
import _thread, hashlib, heapq, json, os, random, sys, threading, time, traceback

import dis as _dis
real_time = time.time
real_monotonic = time.monotonic
_lock = _thread.allocate_lock
_start = _thread.start_new_thread
_ident = _thread.get_ident

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
TARGETS = (REPO + "/src/arc_utilities/", REPO + "/scripts/")

S = None  # the Sim of this run


class MachineryError(BaseException):
    pass


class SimExit(BaseException):
    """ends a simulated thread at the end of a run"""


class Thr:
    __slots__ = ("id", "baton", "ready", "wake", "waiting", "sentinels", "name", "done", "ident", "stall")

    def __init__(self, i, name):
        self.id, self.name = i, name
        self.baton = _lock()
        self.baton.acquire()
        self.ready, self.wake, self.waiting, self.done = True, None, None, False
        self.sentinels = []
        self.ident = None


class Sim:
    MAXCHOICES = 6000
    shared = None

    def __init__(self, base=0, index=0, replay=None, trace=False, out=None):
        self.rng = random.Random((base << 40) ^ (index * 2654435761) ^ 0x9E3779B9)
        self.replay = replay
        self.pos = 0
        self.vals = []
        self.h = hashlib.blake2b(digest_size=8)
        self.sh = hashlib.blake2b(digest_size=8)
        self.trace = trace
        self.lines = []
        self.out = out
        self.now = 1_000_000_000_000        # monotonic clock
        self.wall_off = 1_700_000_000_000_000_000 - 1_000_000_000_000
        self.t0 = self.now
        self.step_ns = 1000
        self.steps = 0
        self.max_steps = 300_000
        self.switches = 0
        self.faults, self.probes = {}, {}
        self.threads = []
        self.cur = None
        self.timers = []                    # (time, seq, thread, token)
        self.seq = 0
        self.preempt = False                # preempt at trace points
        self.countdown = 64
        self.gap = 0
        self.stall_ns = 0
        self.got_at = 0
        self.got_now = self.now
        self.ended = False
        self.deadlock_ok = None
        self.bythread = {}
        self.on_point = None                # extra hook (signals)
        self.alarm_at = None
        self.alarm_pending = False
        self.handlers = {}
        self.delivering = False
        self.last_call = False
        self.max_choices = Sim.MAXCHOICES
        self.idle_hook = None
        self.livelock_fail = True
        self.injected = []                  # (when, ns): delays the simulator put in

    # ---- choices ----
    def choose(self, n):
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] % n if self.pos < len(self.replay) else 0
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.vals.append(v)
        if self.shared is not None and self.pos < 8190:
            _pack(self.shared, 8 * self.pos, v)
            _pack(self.shared, 0, self.pos)
        if self.pos > self.max_choices:
            self.finish(3, "budget", "choice budget")
        return v

    def chance(self, num, den=100):
        return self.choose(den) >= den - num

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def rnd(self, lo, hi):
        return lo + self.choose(hi - lo + 1)

    def log(self, *a):
        s = " ".join(map(str, a))
        self.h.update(s.encode("utf-8", "surrogateescape") + b"\n")
        if self.trace:
            self.lines.append(f"[{(self.now - self.t0) / 1e9:.6f} t{self.cur.id if self.cur else '-'}] {s}")

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n
        self.log("FAULT", name)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def fail(self, cls, msg):
        self.finish(2, cls, msg)

    def check(self, ok, cls, msg):
        if not ok:
            self.finish(2, cls, msg() if callable(msg) else msg)

    def finish(self, status, cls="", msg=""):
        if self.ended:
            raise SimExit()
        self.ended = True
        sys.settrace(None)
        if status == 2:
            self.log("VIOLATION", cls, msg)
        self.h.update(bytes(str(self.vals), "ascii"))
        r = {"status": status, "cls": cls, "msg": str(msg)[:1500], "hash": self.h.hexdigest(), "sched": self.sh.hexdigest(),
             "n": len(self.vals), "switches": self.switches, "steps": self.steps, "val": self.vals,
             "sim_s": (self.now - self.t0) / 1e9, "faults": self.faults, "probes": self.probes}
        if self.trace:
            r["trace"] = self.lines
        data = json.dumps(r).encode()
        fd = self.out
        while data:
            k = _os_write(fd, data)
            data = data[k:]
        sys.stdout.flush()
        _os_exit(0)

    # ---- threads ----
    def adopt_main(self):
        t = Thr(0, "main")
        t.ident = _ident()
        self.threads.append(t)
        self.cur = t
        self.bythread[t.ident] = t

    def me(self):
        return self.bythread.get(_ident())

    def spawn(self, fn, args=(), kw=None, name="thread"):
        t = Thr(len(self.threads), name)
        self.threads.append(t)

        def boot():
            t.baton.acquire()
            t.ident = _ident()
            self.bythread[t.ident] = t
            try:
                if self.preempt or self.on_point:
                    sys.settrace(tracer)
                fn(*args, **(kw or {}))
            except SimExit:
                pass
            except MachineryError as e:
                self.finish(9, "machinery", repr(e))
            except BaseException as e:
                if isinstance(e, SystemExit):
                    pass
                else:
                    self.finish(2, "exception", f"thread '{t.name}' died: " + short_tb(e))
            sys.settrace(None)
            t.done = True
            t.ready = False
            for s in t.sentinels:
                s._force_release()
            del self.bythread[t.ident]
            self.log("thread", t.id, "ended")
            self._dispatch(t, dying=True)
        _start(boot, ())
        self.log("thread", t.id, "started", name)
        return t

    def _advance(self):
        """nobody can run: jump to the next timer; False when there is none"""
        while self.timers:
            w, _, t, tok = heapq.heappop(self.timers)
            if t.done or t.wake != tok:
                continue
            if w > self.now:
                self.now = w
            t.wake, t.ready = None, True
            return True
        return False

    def _due(self):
        while self.timers and self.timers[0][0] <= self.now:
            w, _, t, tok = heapq.heappop(self.timers)
            if t.done or t.wake != tok:
                continue
            t.wake, t.ready = None, True

    def _dispatch(self, me, dying=False):
        """give control to a ready thread (possibly me)"""
        self._due()
        self.steps += 5
        if self.steps > self.max_steps:
            self.countdown = 0
            self.slow_point()
        while True:
            ready = [t for t in self.threads if t.ready and not t.done]
            if ready:
                break
            if self.idle_hook and self.idle_hook():
                continue
            if not self._advance():
                if self.deadlock_ok:
                    self.deadlock_ok()
                self.finish(2, "deadlock", "no thread can ever run again: " + ", ".join(
                    f"t{t.id} {t.name} waits for {t.waiting}" for t in self.threads if not t.done))
            self._due()
        if me in ready and ready[0] is not me:
            ready.remove(me)
            ready.insert(0, me)
        nxt = ready[self.choose(len(ready))] if len(ready) > 1 else ready[0]
        self._go(me, nxt, dying)

    def _go(self, me, nxt, dying=False):
        if nxt is me:
            return
        self.got_at = self.steps
        self.got_now = self.now
        self.switches += 1
        self.sh.update(bytes([nxt.id & 255]))
        self.cur = nxt
        nxt.baton.release()
        if dying:
            return
        me.baton.acquire()
        if self.ended:
            raise SimExit()

    def block(self, what, timeout_ns=None):
        """current thread waits until made ready or the timeout passes; True when it timed out"""
        me = self.cur
        me.waiting = what
        me.ready = False
        self.seq += 1
        tok = self.seq
        if timeout_ns is not None:
            me.wake = tok
            heapq.heappush(self.timers, (self.now + max(0, timeout_ns), tok, me, tok))
        else:
            me.wake = None
        self._dispatch(me)
        timed = timeout_ns is not None and me.wake is None
        me.wake = None
        me.waiting = None
        return timed

    def unblock(self, t):
        if not t.done and not t.ready:
            t.ready = True
            if t.wake is not None:
                t.wake = -1  # not timed out

    def sleep(self, ns):
        self.block("sleep", ns)

    def redraw(self):
        # 0: no preemption soon; else a preemption within `gap` points
        if not self.gap or self.choose(8) == 0:
            self.countdown = 300
            self.fire = False
        else:
            self.countdown = 1 + self.choose(self.gap)
            self.fire = True

    def yield_point(self, cost=None):
        """a point at which control may pass to another thread"""
        self.steps += 1
        self.now += self.step_ns if cost is None else cost
        self.countdown -= 1
        if self.countdown <= 0:
            self.slow_point()
        elif cost is not None and self.now - self.got_now > 5_000_000:
            self.fair_point()

    def fair_point(self):
        """a thread that has run for long gives way, like the interpreter's switch interval"""
        self._due()
        others = [t for t in self.threads if t.ready and not t.done and t is not self.cur]
        self.got_at, self.got_now = self.steps, self.now
        if others:
            self._go(self.cur, min(others, key=lambda t: (t.id - self.cur.id) % len(self.threads)))

    def slow_point(self):
        if self.ended:
            raise SimExit()
        if self.steps > self.max_steps:
            if self.livelock_fail:
                self.finish(2, "endless", "the run does not end: more than %d steps, last thread t%d" % (self.max_steps, self.cur.id))
            self.finish(3, "budget", "steps")
        if len(self.threads) < 2:
            self.countdown = 64
            return
        if self.steps - self.got_at > 3000 or self.now - self.got_now > 5_000_000:
            self.fair_point()
        if not self.preempt:
            self.countdown = 64
        else:
            if self.fire:
                if self.stall_ns and self.chance(6):
                    self.fault("stalled_thread")
                    n = 1 + self.choose(16) * self.stall_ns // 16
                    self.injected.append((self.now, n))
                    self.sleep(n)
                else:
                    self._dispatch(self.cur)
            self.redraw()

    def start_preempting(self, gap=None, stall_ns=0):
        self.gap = self.pick([0, 8, 40, 200]) if gap is None else gap
        self.stall_ns = stall_ns
        self.preempt = True
        self.fire = False
        self.redraw()
        sys.settrace(tracer)

    def lateness(self, since=0):
        return sum(n for t, n in self.injected if t + n >= since)

    def wait_until(self, pred, ns, poll=1_000_000):
        """the harness waits; False when the time passes first"""
        end = self.now + ns
        while not pred():
            if self.now >= end:
                return False
            self.sleep(min(poll, end - self.now))
        return True

    def go(self, fn, *args, name="thread"):
        return self.spawn(fn, args, name=name)

    # ---- alarms (SIGALRM) ----
    def alarm_due(self):
        """a signal whose time has come is pending whatever happens to the timer afterwards"""
        if self.alarm_at is not None and self.now >= self.alarm_at:
            self.alarm_at = None
            self.alarm_pending = True

    def set_alarm(self, ns):
        self.alarm_due()
        left = 0 if self.alarm_at is None else max(1, self.alarm_at - self.now)
        self.alarm_at = None if ns == 0 else self.now + ns
        return left


def short_tb(e):
    out = []
    for f in traceback.extract_tb(e.__traceback__)[-4:]:
        out.append(f"{os.path.basename(f.filename)}:{f.name}")
    return f"{type(e).__name__}: {e} (in {' > '.join(out)})"


_targets = {}


def is_target(code):
    r = _targets.get(code)
    if r is None:
        f = code.co_filename
        r = _targets[code] = f.startswith(TARGETS) or f.startswith("<simuser")
    return r


def tracer(frame, event, arg):
    if is_target(frame.f_code):
        s = S
        if s.gap or s.on_point:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        if S.on_point:
            S.on_point(frame, "call")
        return local
    return None


def local(frame, event, arg):
    if event == "opcode" or event == "line":
        s = S
        s.steps += 1
        s.now += s.step_ns
        s.countdown -= 1
        if s.countdown <= 0:
            s.slow_point()
        if s.on_point:
            s.on_point(frame, event)
    return local


def retrace():
    """tracing is switched off by CPython when a trace function raises; switch it on again for all live target frames"""
    f = sys._getframe(1)
    while f is not None:
        if is_target(f.f_code):
            f.f_trace = local
            f.f_trace_opcodes = True
            f.f_trace_lines = False
        f = f.f_back
    sys.settrace(tracer)


# ---------------------------------------------------------------- replacements for the standard library
class SimLock:
    def __init__(self):
        self._l = False
        self._w = []

    def acquire(self, blocking=True, timeout=-1):
        s = S
        if s is None or s.me() is None:
            if self._l:
                if not blocking:
                    return False
                raise MachineryError("lock of a dead world")
            self._l = True
            return True
        s.yield_point()
        end = None if timeout is None or timeout < 0 else s.now + int(timeout * 1e9)
        while self._l:
            if not blocking:
                return False
            if end is not None and s.now >= end:
                return False
            self._w.append(s.cur)
            s.block("a lock", None if end is None else end - s.now)
            if s.cur in self._w:
                self._w.remove(s.cur)
        self._l = True
        return True

    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._force_release()
        s = S
        if s is not None and s.me() is not None and not s.ended:
            s.yield_point()

    def _force_release(self):
        self._l = False
        for t in self._w:
            S.unblock(t)

    def locked(self):
        return self._l

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = False
        self._w = []


def sim_start_new_thread(fn, args=(), kw=None):
    if S is None:
        raise MachineryError("thread outside a run")
    S.spawn(fn, args, kw)
    S.yield_point()
    return 1


def sim_sentinel():
    l = SimLock()
    S.me().sentinels.append(l)
    return l


def sim_sleep(sec):
    if sec < 0:
        raise ValueError("sleep length must be non-negative")
    S.log("sleep", round(float(sec), 9))
    if S.cur.id == 0 and (S.alarm_at is not None or S.alarm_pending or S.sigint_at is not None):
        end = S.now + int(sec * 1e9)
        deliver_alarm()
        while S.now < end:
            due = [t for t in (S.alarm_at, S.sigint_at) if t is not None and t <= end]
            if due:
                S.sleep(max(0, min(due) - S.now))
                deliver_alarm()
            else:
                S.sleep(end - S.now)
        return
    over = 0
    if S.oversleep:
        over = S.choose(4) * S.oversleep // 3
        if over:
            S.fault("late_wakeup")
            S.injected.append((S.now + int(sec * 1e9), over))
    S.sleep(int(sec * 1e9) + over)


Sim.oversleep = 0


def deliver_alarm():
    """run the handler of a due alarm now, as the interpreter would in the main thread"""
    s = S
    s.alarm_due()
    if s.cur.id != 0:
        return
    if s.sigint_at is not None and s.now >= s.sigint_at:
        s.sigint_at = None
        s.log("SIGINT delivered")
        s.fault("interrupt_delivered")
        raise KeyboardInterrupt("injected")
    if not s.alarm_pending:
        return
    s.alarm_pending = False
    h = s.handlers.get(14)
    s.log("SIGALRM delivered")
    s.fault("alarm_delivered")
    s.alarms = getattr(s, "alarms", 0) + 1
    s.last_alarm_ns = s.now
    if s.alarm_observer:
        s.alarm_observer()
    if h is None or h == 0:
        s.fail("killed", "SIGALRM arrived with no handler installed: it ends the process")
    if h == 1:
        return
    h(14, None)


Sim.alarm_observer = None
Sim.sigint_at = None
Sim.after_call = False


def sim_signal(num, h):
    if S.cur.id != 0:
        raise ValueError("signal only works in main thread of the main interpreter")
    old = S.handlers.get(int(num), 0)
    S.handlers[int(num)] = h
    S.log("signal", int(num), "handler set" if callable(h) else h)
    retrace_if()
    return old


def sim_getsignal(num):
    return S.handlers.get(int(num), 0)


def retrace_if():
    S.after_call = True
    if S.preempt or S.on_point:
        retrace()


def sim_alarm(sec):
    import operator
    sec = operator.index(sec)
    left = S.set_alarm(sec * 1_000_000_000)
    S.log("alarm", sec)
    retrace_if()
    return -(-left // 1_000_000_000) if left else 0


def sim_setitimer(which, sec, interval=0.0):
    left = S.set_alarm(int(sec * 1e9))
    S.log("setitimer", sec)
    retrace_if()
    return (left / 1e9, 0.0)


def sim_getitimer(which):
    return (0.0 if S.alarm_at is None else max(0, S.alarm_at - S.now) / 1e9, 0.0)


def install():
    """put the simulator under threading, time and signal; called once before the code under test is imported"""
    import queue, signal  # noqa
    _thread.allocate_lock = SimLock
    _thread.start_new_thread = sim_start_new_thread
    threading._allocate_lock = threading.Lock = SimLock
    threading._start_new_thread = sim_start_new_thread
    threading._set_sentinel = sim_sentinel
    threading._CRLock = None
    threading.RLock = threading._RLock = threading._PyRLock
    mono = lambda: S.now / 1e9                                         # noqa
    wall = lambda: (S.now + S.wall_off) / 1e9                          # noqa
    threading._time = mono
    queue.time = mono
    time.sleep = sim_sleep
    time.time = wall
    time.time_ns = lambda: S.now + S.wall_off
    time.monotonic = time.perf_counter = time.process_time = mono
    time.monotonic_ns = time.perf_counter_ns = lambda: S.now
    signal.signal = sim_signal
    signal.getsignal = sim_getsignal
    signal.alarm = sim_alarm
    signal.setitimer = sim_setitimer
    signal.getitimer = sim_getitimer


def _prime():
    # CPython 3.12 sends opcode events only to trace functions installed after some frame has asked for them
    sys._getframe().f_trace_opcodes = True


_prime()
import struct
_pack = struct.Struct("=q").pack_into
_os_write, _os_exit = os.write, os._exit
