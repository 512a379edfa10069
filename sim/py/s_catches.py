"""C27, C28: calls and generators under an alarm whose delivery the simulator aims at chosen instants."""
import dis, functools, sys

import simcore
simcore.install()
from simcore import deliver_alarm  # noqa: E402
import time  # noqa: E402
from arc_utilities import catches  # noqa: E402

MS, US, SEC = 1_000_000, 1000, 1_000_000_000
CALLS = {dis.opmap[n] for n in ("CALL", "CALL_FUNCTION_EX")}
JUMPS = {dis.opmap[n] for n in ("JUMP_BACKWARD",)}


class Points:
    """delivers due signals where the interpreter looks for them (after RESUME, JUMP_BACKWARD and calls of C functions), and stalls the process
    up to an instant around the deadline at a chosen instruction of the code under test"""

    def __init__(self, s):
        self.s = s
        self.last = {}
        self.called = set()
        self.fresh = set()
        self.aim = None             # (number of instructions of catches.py to come, offset from the deadline)
        s.on_point = self

    def __call__(self, frame, event):
        s = self.s
        k = id(frame)
        code = frame.f_code
        if event == "call":
            self.fresh.add(k)
            self.last.pop(k, None)
            if frame.f_back is not None:
                self.called.add(id(frame.f_back))
            return
        prev = self.last.get(k)
        self.last[k] = frame.f_lasti
        brk = k in self.fresh
        self.fresh.discard(k)
        if prev is not None:
            op = code.co_code[prev]
            brk |= op in CALLS and k not in self.called or op in JUMPS
        self.called.discard(k)
        if s.after_call:
            brk, s.after_call = True, False
        if code.co_filename == catches.__file__ and s.user_ended:
            # the instruction that gets the user's result: whether a signal is noticed here depends on what was called
            s.user_ended = False
            return
        if self.aim is not None and code.co_filename == catches.__file__:
            n, off = self.aim
            self.aim = (n - 1, off)
            if n <= 0:
                self.aim = None
                if s.alarm_at is not None and s.alarm_at + off > s.now:
                    s.fault("stalled_to_deadline")
                    s.log("stall", dis.opname[code.co_code[frame.f_lasti]], (s.alarm_at + off - s.now) // US, "us")
                    s.now = s.alarm_at + off
        if brk and (s.alarm_at is not None or s.alarm_pending or s.sigint_at is not None):
            if s.alarm_pending or any(t is not None and s.now >= t for t in (s.alarm_at, s.sigint_at)):
                s.sh.update(f"{code.co_name} {frame.f_lasti};".encode())
            deliver_alarm()


USER = '''
def work(rec, plan):
    rec.begin()
    if plan.busy:
        while rec.more():
            pass
    else:
        sleep(plan.secs)
    if plan.kind == "raise":
        e = rec.own()
        raise e
    v = rec.value()
    return v


def swallow(rec, plan):
    rec.begin()
    try:
        while rec.more():
            pass
    except BaseException as e:
        rec.caught(e)
    if plan.kind == "raise":
        raise rec.own()
    return rec.value()


def cleanup(rec, plan):
    rec.begin()
    try:
        if plan.busy:
            while rec.more():
                pass
        else:
            sleep(plan.secs)
        if plan.kind == "raise":
            raise rec.own()
        return rec.value()
    finally:
        sleep(plan.tidy)
        rec.tidied()


def convert(rec, plan):
    rec.begin()
    try:
        while rec.more():
            pass
    except TimeoutError as e:
        raise rec.converted() from e
    return rec.value()


def later(n):
    i = 0
    while i < n:
        i += 1
        sleep(0.25)


def numbers(rec, runs):
    for k in range(len(runs)):
        rec.starts(k)
        if runs[k].busy:
            while rec.more():
                pass
        else:
            sleep(runs[k].secs)
        if runs[k].kind == "raise":
            raise rec.own()
        rec.ready(k)
        yield rec.item(k)
    sleep(rec.tail)
    rec.done()


def stubborn(rec, runs):
    for k in range(len(runs)):
        try:
            rec.starts(k)
            if runs[k].busy:
                while rec.more():
                    pass
            else:
                sleep(runs[k].secs)
            if runs[k].kind == "raise":
                raise rec.own()
        except TimeoutError as e:
            rec.caught(e)
            continue
        rec.ready(k)
        yield rec.item(k)
    sleep(rec.tail)
    rec.done()


class Items:
    def __init__(self, rec, runs):
        self.rec, self.runs, self.k = rec, runs, -1

    def __iter__(self):
        return self

    def __next__(self):
        rec, runs = self.rec, self.runs
        self.k += 1
        k = self.k
        if k >= len(runs):
            rec.starts(k)
            sleep(rec.tail)
            rec.done()
            raise StopIteration
        rec.starts(k)
        if runs[k].busy:
            while rec.more():
                pass
        else:
            sleep(runs[k].secs)
        if runs[k].kind == "raise":
            raise rec.own()
        rec.ready(k)
        return rec.item(k)
'''
U = {"sleep": time.sleep, "__name__": "user"}
exec(compile(USER, "<simuser>", "exec"), U)


simcore.Sim.user_ended = False


class Own(Exception):
    pass


def own_error(s):
    return s.pick([Own("own"), ValueError("own"), TimeoutError("own"), TimeoutError(), InterruptedError("own"), KeyboardInterrupt("own"), SystemExit(3),
                   MemoryError("own"), GeneratorExit("own"), OSError(5, "own"), BlockingIOError("own")])


class Plan:
    """how long a piece of user code takes and how it ends"""

    def __init__(self, s, limit, slow=None, easy=False):
        k = s.choose(8) if slow is None else (5 + s.choose(2) if slow else 0 if easy else s.choose(4))
        if k < 2:
            self.ns = s.choose(50) * limit * SEC // 100
        elif k < 4:
            self.ns = limit * SEC - s.pick([1, 5, 12, 20, 40, 200, 5000]) * US      # ends just before the deadline
        elif k == 4:
            self.ns = limit * SEC + s.pick([-8, -4, -2, 0, 3]) * US
        elif k == 5:
            self.ns = limit * SEC + s.choose(100) * limit * SEC // 30 + 50 * US
        elif k == 6:
            self.ns = limit * SEC + s.pick([100, 5000]) * US
        else:
            self.ns = 1000 * SEC                                                    # never ends
        self.busy = s.chance(40)
        self.kind = "return"
        self.tidy = 0

    @property
    def secs(self):
        return self.ns / 1e9


class Rec:
    def __init__(self, s):
        self.s = s
        self.t_begin = self.t_done = None
        self.error = None
        self.val = None
        self.took = None
        self.inside = None          # time at which the alarm struck inside the user's code
        self.swallowed = False
        self.n = 0

    def begin(self):
        self.t_begin = self.s.now
        self.n += 1

    def more(self):
        s, left = self.s, self.t_begin + self.ns - self.s.now
        # the closer to the end, the finer the steps; stop short of the alarm so that it strikes between instructions
        d = min(max(left // 4, 3 * US), 50 * MS)
        if s.alarm_at is not None and s.alarm_at > s.now:
            d = min(d, max(1, s.alarm_at - s.now))
        s.now += max(1, min(d, left)) if left > 0 else 1
        return left > 0

    def own(self):
        self.t_done = self.s.now
        self.s.user_ended = True
        return self.error

    def converted(self):
        self.error = Own("converted")
        self.t_done = self.s.now
        self.s.user_ended = True
        return self.error

    def value(self):
        self.t_done = self.s.now
        self.s.user_ended = True
        return self.val

    def caught(self, e):
        self.swallowed = True
        self.got = e

    def tidied(self):
        self.t_tidied = self.s.now


def in_user():
    f = sys._getframe(1)
    while f is not None:
        if f.f_code.co_filename == "<simuser>":
            return True
        f = f.f_back
    return False


def aim(s, pts):
    pts.aim = (s.choose(70), s.pick([0, 1, 2, 5, 50, -1, -3]) * US) if s.chance(60) else None


def sigint(s, limit):
    s.sigint_at = s.now + s.choose(130) * limit * SEC // 100 + s.choose(60) * US if s.chance(12) else None


def run_later(s, what):
    try:
        U["later"](30)
    except BaseException as e:
        s.fail("later-code", f"{what}, and later code was interrupted by {e!r}")


def c27(s):
    pts = Points(s)
    s.step_ns = 1 * US
    sys.settrace(simcore.tracer)
    s.gap = 0
    for _ in range(1 + s.choose(4)):
        limit = s.pick([1, 1, 2, 7])
        rec = Rec(s)
        plan = Plan(s, limit)
        rec.ns = plan.ns
        if s.chance(40):
            plan.kind = "raise"
            rec.error = own_error(s)
        fn = U[s.pick(["work", "work", "work", "swallow", "cleanup", "convert"])]
        if fn is U["convert"]:
            plan.kind = "return"
        if fn is U["cleanup"]:
            plan.tidy = s.pick([0, 2e-6, 1e-3, limit / 2])
        rec.val = s.pick([None, 7, (1, True), (None, True), TimeoutError("a value"), [1]])
        name = fn.__name__
        called = []

        def with_args(a, b, *rest, key=None, **more):
            called.append((a, b, rest, key, more))
            return fn(rec, plan)
        form = s.choose(4)
        call, args, kw = fn, (rec, plan), {}
        if form == 1:
            call, args, kw = fn, (rec,), {"plan": plan}
        elif form == 2:
            call, args = functools.partial(fn, rec), (plan,)
        elif form == 3:
            call, args, kw = with_args, (1, [2], 3), {"key": rec, "other": plan}
        hits = []

        def struck():
            hits.append((s.now, in_user()))
        s.alarm_observer = struck
        aim(s, pts)
        sigint(s, limit)
        t0 = s.now
        s.log("call", name, "limit", limit, "takes", plan.ns // US, "us", plan.kind, type(rec.error).__name__, "form", form)
        out = err = None
        simcore.retrace()
        try:
            out = catches.catch_timeout(limit, call, *args, **kw)
        except BaseException as e:
            if isinstance(e, (simcore.SimExit, simcore.MachineryError)):
                raise
            err = e
        t1 = s.now
        on = s.alarm_at is not None
        s.sigint_at = None
        s.log("ended", repr(out), type(err).__name__)
        hit = hits[0] if hits else None
        s.check(not on, "alarm-on", "the alarm is still on after the timed call ended")
        s.check(rec.n <= 1, "ran-twice", "the function ran more than once")
        if form == 3 and called:
            a = called[0]
            s.check(a[0] == 1 and a[1] == [2] and a[2] == (3,) and a[3] is rec and a[4] == {"other": plan}, "arguments", "the function got other arguments")
        interrupted_by_user = isinstance(err, KeyboardInterrupt) and err.args == ("injected",)
        for t, u in hits:
            s.check(t >= t0 + limit * SEC, "early", f"the alarm struck after {(t - t0) / 1e9:.6f} s, the limit is {limit} s")
        if interrupted_by_user:
            s.probe("user_interrupt")
        elif err is not None:
            s.check(err is rec.error and rec.t_done is not None, "foreign-error", f"the call raised {err!r}, which the function did not")
            s.probe("own_error")
        else:
            s.check(type(out) is tuple and len(out) == 2 and type(out[1]) is bool, "outcome", f"returned {out!r}")
            if out[1]:
                s.check(out[0] is None, "outcome", f"timed out with a result {out[0]!r}")
                s.check(t1 >= t0 + limit * SEC, "false-timeout", f"reported timed out after {(t1 - t0) / 1e9:.6f} s, the limit is {limit} s"
                        + ("; the function had raised " + repr(rec.error) if rec.error is not None and rec.t_done else ""))
                if rec.t_done is not None and not (hit and hit[1]):
                    s.check(rec.t_done + 12 * US >= t0 + limit * SEC, "false-timeout",
                            f"reported timed out although the function had {'raised ' + repr(rec.error) if plan.kind == 'raise' else 'returned'} "
                            f"{(t0 + limit * SEC - rec.t_done) / 1e3:.0f} us before the deadline")
                s.check(rec.error is None or rec.t_done is None or bool(hits), "false-timeout", "reported timed out although the function raised its own error and no alarm struck")
                s.probe("timed_out")
            else:
                ok = rec.t_done is not None and plan.kind == "return" and out[0] is rec.val
                s.check(ok, "outcome", f"returned {out!r}; the function {'did not end' if rec.t_done is None else 'ended otherwise'}")
                s.probe("completed")
        # interrupted at the deadline
        if rec.t_begin is not None and not interrupted_by_user:
            end = t1 if rec.t_done is None else rec.t_done
            if hit is None or not hit[1]:
                s.check(rec.t_done is not None and end <= t0 + limit * SEC + 5 * MS or hit is not None, "not-interrupted",
                        f"the function ran for {(end - t0) / 1e9:.6f} s without being interrupted, the limit is {limit} s")
            else:
                s.check(hit[0] <= t0 + limit * SEC + 5 * MS, "late-interrupt", f"interrupted only after {(hit[0] - t0) / 1e9:.6f} s, the limit is {limit} s")
                if not rec.swallowed and name in ("work", "cleanup") and rec.t_done is None:
                    s.check(err is None and out == (None, True), "lost-timeout", "the function was interrupted, but the call was not reported as timed out")
        s.alarm_observer = None
        try:
            deliver_alarm()
        except TimeoutError as e:
            s.fail("later-code", f"the timed call had ended, and later code was interrupted by {e!r}")
        if s.chance(50):
            run_later(s, "the timed call had ended")


class GenRec(Rec):
    def __init__(self, s, world, run):
        super().__init__(s)
        self.w, self.run = world, run
        self.tail = 0
        self.alive = True

    def starts(self, k):
        self.t_begin = self.s.now
        self.ns = self.runs[k].ns if k < len(self.runs) else 0
        self.error = self.runs[k].error if k < len(self.runs) else None
        self.w.ev.append(("start", self.run, k, self.s.now))

    def ready(self, k):
        self.w.ready_at = self.s.now

    def item(self, k):
        v = self.value if k == self.odd_at else (self.run, k)
        self.w.pending = (v, self.s.now)
        self.w.ev.append(("ready", v))
        self.s.user_ended = True
        return v

    def own(self):
        self.w.raised = self.error
        self.s.user_ended = True
        return self.error

    def caught(self, e):
        self.w.ev.append(("caught", self.run, self.s.now))

    def done(self):
        self.w.ev.append(("done", self.run, self.s.now))
        self.w.finished = self.run
        self.s.user_ended = True


NOTHING = object()


class World:
    pass


def c28(s):
    pts = Points(s)
    s.step_ns = 1 * US
    sys.settrace(simcore.tracer)
    s.gap = 0
    limit = s.pick([1, 1, 2, 5])
    retry = s.chance(55)
    style = s.pick(["numbers", "numbers", "stubborn", "Items"])
    w = World()
    w.ev, w.pending, w.finished, w.raised, w.ready_at = [], None, None, None, None
    nruns = 1 + s.choose(4)
    runs = []
    for r in range(nruns):
        n = s.choose(5)
        items = []
        slow = s.choose(n + 1) if r < nruns - 1 and n else None
        for k in range(n):
            if retry:
                p = Plan(s, limit, slow=(k == slow), easy=(r == nruns - 1))
            else:
                p = Plan(s, limit, slow=s.chance(30))
            if style == "numbers" or retry:
                p.ns = min(p.ns, 20 * SEC)
            p.error = None
            if s.chance(4):
                p.kind, p.error = "raise", s.pick([Own("own"), ValueError("own"), TimeoutError("own"), TimeoutError(), KeyboardInterrupt("own"), OSError(5, "own")])
            items.append(p)
        runs.append(items)
    started = []
    tail = s.pick([0, 0, 1e-3, limit * 0.5])

    def make(a, *, key):
        """the generator function the user hands over"""
        s.check(a == "arg" and key == [1], "arguments", "the generator got other arguments")
        run = len(started)
        rec = GenRec(s, w, run)
        rec.runs = runs[min(run, nruns - 1)]
        rec.tail = tail
        rec.odd_at, rec.value = (s.choose(4), s.pick([None, None, False, 0, "", (), (None, True), TimeoutError("an item"), StopIteration(1)])) if s.chance(25) else (-1, None)
        if rec.odd_at >= 0:
            s.probe("odd_item")
        started.append(rec)
        w.ev.append(("made", run, s.now))
        s.log("run", run)
        return U[style](rec, rec.runs)
    callbacks = []
    cb_error = None
    with_cb = s.chance(75)
    cb_fail = Own("callback") if with_cb and retry and s.chance(6) else None

    def on_timeout(*a):
        s.check(not a, "callback", "the callback got arguments")
        callbacks.append(s.now)
        w.ev.append(("callback", len(callbacks), s.now))
        s.log("callback")
        s.check(s.alarm_at is None, "callback-timed", "the alarm is on while the timeout callback runs")
        d = s.pick([0, 0, limit * 2])
        if d:
            time.sleep(d)
        w.ev.append(("callback ends", s.now))
        if cb_fail:
            raise cb_fail
    hits = []

    def struck():
        hits.append((s.now, in_user()))
        w.ev.append(("struck", s.now, in_user()))
    s.alarm_observer = struck
    got = []
    sent = []
    abandoned = 0
    it = catches.retry_on_timeout(limit, on_timeout if with_cb else None, make, "arg", key=[1]) if retry else catches.skip_on_timeout(limit, make, "arg", key=[1])
    err = None
    ended = closed = False
    stop_after = s.choose(6) if s.chance(15) else None
    for step in range(40):
        if s.chance(50):
            aim(s, pts)
        if s.chance(20):
            sigint(s, limit)
        t0 = s.now
        n_ev = len(w.ev)
        w.pending = None
        w.raised = None
        w.finished = None
        simcore.retrace()
        try:
            v = next(it)
        except StopIteration:
            ended = True
        except BaseException as e:
            if isinstance(e, (simcore.SimExit, simcore.MachineryError)):
                raise
            err = e
        s.sigint_at = None
        pts.aim = None
        t1 = s.now
        s.check(s.alarm_at is None, "alarm-on", "the alarm is on while the consumer runs")
        try:
            deliver_alarm()
        except TimeoutError as e:
            s.fail("consumer-time", f"the consumer was interrupted by {e!r}")
        ev = w.ev[n_ev:]
        s.log("events", [e[0] for e in ev], "ended" if ended else type(err).__name__ if err is not None else v)
        by_user = isinstance(err, KeyboardInterrupt) and err.args == ("injected",)
        check_request(s, w, ev, t0, t1, limit, retry, with_cb, cb_fail, ended, err, by_user, NOTHING if ended or err is not None else v)
        if by_user:
            s.probe("user_interrupt")
            break
        if err is not None or ended:
            break
        got.append(v)
        s.probe("item")
        if stop_after is not None and len(got) > stop_after:
            it.close()
            s.check(s.alarm_at is None, "alarm-on", "the alarm is on after the consumer stopped")
            closed = True
            break
        # the consumer takes its time
        d = s.pick([0, 0, 0.5 * limit, 3 * limit])
        if d:
            try:
                U["sleep"](d)
            except BaseException as e:
                s.fail("consumer-time", f"the consumer was interrupted by {e!r}")
    else:
        s.fail("no-end", "the generator still runs after 40 items")
    if retry:
        # the items are those of successive runs, none lost, repeated or invented
        s.check(got == [x for x in w_items(w)], "items", lambda: f"the consumer got {got}, the runs produced {w_items(w)}")
    else:
        s.check(len(started) == 1, "restarted", "the generator was started more than once")
        s.check(got == w_items(w), "items", lambda: f"the consumer got {got}, the generator produced {w_items(w)}")
        if ended:
            cut = style != "Items" and any(e[0] == "struck" and e[2] for e in w.ev)
            s.check(w_done(w) == 0 or cut, "ended-early", "the consumer saw the end although the generator could go on")
    if ended and retry:
        s.check(w_done(w) == len(started) - 1, "incomplete", f"ended although the last run, {len(started) - 1}, was not complete")
        s.probe("complete")
    try:
        after(s, it, ended or err is not None)
    finally:
        s.alarm_observer = None
    run_later(s, "the generator had ended")


def w_items(w):
    return [e[1] for e in w.ev if e[0] == "item"]


def w_done(w):
    d = [e[1] for e in w.ev if e[0] == "done"]
    return d[-1] if d else None


def after(s, it, ended):
    if ended:
        try:
            v = next(it)
            s.fail("after-end", f"gave {v} after it had ended")
        except StopIteration:
            pass


def check_request(s, w, ev, t0, t1, limit, retry, with_cb, cb_fail, ended, err, by_user, v):
    """one request of the consumer: what the generator did, against what the consumer got"""
    L = limit * SEC
    # an item the generator handed over in this request
    if w.pending is not None:
        val, t = w.pending
        at = max(i for i, e in enumerate(ev) if e[0] == "ready")
        last_strike = [e for e in ev[at:] if e[0] == "struck" and e[2]]
        if not last_strike:
            w.ev.append(("item", val, t))
            if not by_user:
                s.check(err is None and not ended and v is val, "lost-item",
                        f"the generator produced {val}, the consumer got {'the end' if ended else repr(err) if err is not None else v}")
            else:
                w.ev.pop()
    else:
        s.check(ended or err is not None, "invented", f"the consumer got {v}, which the generator did not produce in this request")
    # abandoned runs
    begin = t0
    strikes = 0
    need_cb = 0
    for e in ev:
        if e[0] == "struck":
            if e[2]:
                strikes += 1
            s.check(e[1] >= begin + L, "early", f"the generator was interrupted {(e[1] - begin) / 1e9:.6f} s after the item was asked for, the limit is {limit} s")
            if e[2]:
                s.check(e[1] <= begin + L + 5 * MS, "late-interrupt", f"interrupted {(e[1] - begin) / 1e9:.6f} s after the item was asked for")
            begin = e[1]
        elif e[0] == "callback ends":
            begin = e[1]
    if v is not NOTHING and w.pending is not None and not any(e[0] == "caught" for e in ev):
        s.check(w.pending[1] <= begin + L + 5 * MS, "not-interrupted", f"item {v} took {(w.pending[1] - begin) / 1e9:.6f} s, the limit is {limit} s")
    seq = [e for e in ev if e[0] in ("struck", "callback", "made", "item", "caught")]
    made = [e for e in ev if e[0] == "made"]
    cbs = [e for e in ev if e[0] == "callback"]
    if retry and not by_user:
        first = 1 if any(e[1] == 0 for e in made) else 0
        aband = len(made) - first
        if cb_fail and cbs:
            s.check(err is cb_fail, "callback-error", "the callback's error was lost")
        else:
            s.check(len(cbs) == (aband if with_cb else 0), "callbacks", f"{aband} runs were abandoned in this request, the callback ran {len(cbs)} times")
        hits = [e for e in ev if e[0] == "struck"]
        s.check(aband <= len(hits), "abandoned", f"{aband} runs were abandoned, {len(hits)} items exceeded the limit")
        # a run whose item was interrupted goes on only if the generator chose to
        cont = len([e for e in ev if e[0] == "caught"])
        s.check(len([h for h in hits if h[2]]) - cont <= aband or err is not None, "not-restarted", "an interrupted run was not started afresh")
        # no item of the next run before the callback: starts of a new run come after its callback
        n_cb = n_made = 0
        for e in ev:
            if e[0] == "made" and not (e[1] == 0):
                n_made += 1
            elif e[0] == "callback":
                n_cb += 1
            elif e[0] == "start" and with_cb:
                s.check(n_cb >= n_made, "callback-late", "the next run's first item was started before the callback")
    if err is not None and not by_user and not (cb_fail and err is cb_fail):
        s.check(w.raised is not None and err is w.raised, "foreign-error", f"raised {err!r}, which the generator did not")
        s.probe("own_error")
    elif w.raised is not None and not by_user:
        strk = [e for e in ev if e[0] == "struck" and e[2]]
        s.check(bool(strk) or any(e[0] == "caught" for e in ev), "lost-error", f"the generator raised {w.raised!r}, the consumer {'saw the end' if ended else 'got ' + repr(v)}")
    if strikes:
        s.probe("item_timed_out")


SCENARIOS = {"C27": c27, "C28": c28}
