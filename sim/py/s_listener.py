"""C21 listener, C22 wait_for, C34 controller: connection threads, readers, ROS shutdown and clocks under the simulator."""
import copy

import simcore
simcore.install()
import ros_stub as ros  # noqa: E402
ros.install()
from arc_utilities.listener import Listener  # noqa: E402
from arc_utilities import ros_helpers  # noqa: E402
from arc_utilities.xbox import Xbox  # noqa: E402

MS = 1_000_000


def freeze(m):
    return None if m is None else repr(m)


class Deliveries:
    """every delivery of a message to one subscription: (begin, end, index)"""

    def __init__(self):
        self.l = []

    def allowed(self, gb, ge, key):
        """may a read during [gb, ge] return `key` (None: nothing)?"""
        if key is None:
            return not any(e is not None and e < gb for b, e, k, *_ in self.l)
        for b, e, k, *_ in self.l:
            if k != key or b > ge:
                continue
            if not any(b2 > (e if e is not None else 1 << 62) and e2 is not None and e2 < gb for b2, e2, k2, *_ in self.l):
                return True
        return False


def tick(s):
    s.seqno = getattr(s, "seqno", 0) + 1
    return s.seqno


def joy(s, i, nb=15, na=8):
    m = ros.Joy()
    m.header.seq = i
    m.header.frame_id = f"m{i}"
    m.axes = [round(-1 + 2 * ((i * 37 + 11 * k) % 101) / 101, 6) for k in range(na)]
    m.buttons = [1 + k + 20 * i for k in range(nb)]
    return m


def connection(s, subs, dels, plan, keep):
    """one connection thread: waits, then hands each message to every subscription in turn"""
    for delay, m in plan:
        if delay:
            s.sleep(delay)
        for sub in list(subs):
            d = dels[sub]
            rec = [tick(s), None, freeze(m)]
            d.l.append(rec)
            s.log("deliver", m.header.frame_id)
            sub.deliver(m)
            rec[1] = tick(s)
            rec.append(s.now)
        s.yield_point()


def delays(s, n):
    k = s.pick([0, 1, 2])
    return [0 if k == 0 else s.choose(6) * (MS if k == 1 else 20 * MS) for _ in range(n)]


def c21(s):
    w = ros.new_world(s)
    s.oversleep = s.pick([0, 0, 3 * MS])
    conns = 1 + s.chance(30)
    plans, n = [], 0
    for c in range(conns):
        k = s.choose(5)
        d = delays(s, k)
        plans.append([(d[j], joy(s, n + j, 3, 3)) for j in range(k)])
        n += k
    two = s.chance(20)
    cbmode = s.pick(["none", "record", "record", "reads", "raises", "slow"])
    block_ctor = s.chance(25)
    order = [[], []]
    dels, subs = {}, []
    lst = [None, None]
    threads = []
    started = [False]

    def callback(which):
        def f(m):
            order[which].append((tick(s), freeze(m)))
            s.log("callback", which, m.header.frame_id)
            if cbmode == "reads" and lst[which] is not None:
                r = lst[which].get(False)
                s.check(r is not None and freeze(r) == freeze(m), "callback-read", "get() inside the callback did not return the message delivered")
                r.axes.append(1)
                s.probe("read_inside_callback")
            if cbmode == "slow":
                s.sleep(s.choose(4) * 4 * MS)
            if cbmode == "raises" and s.chance(40):
                s.fault("callback_raises")
                raise RuntimeError("callback failed")
        return f

    def on_sub(sub):
        d = Deliveries()
        dels[sub] = d
        subs.append(sub)
        if len(subs) == 1:
            started[0] = True
            for p in plans:
                threads.append(s.go(connection, s, subs, dels, p, None, name="connection"))
    w.on_subscribe = on_sub
    if s.chance(25):
        w.shutdown_at = s.now + s.choose(12) * 8 * MS
    s.start_preempting(stall_ns=s.pick([0, 0, 5 * MS]))

    def make(i):
        cb = None if cbmode == "none" else callback(i)
        if not block_ctor and s.chance(34):
            l = Listener("topic", ros.Joy, callback=cb)
        elif s.chance(50):
            l = Listener("topic", ros.Joy, wait_for_data=block_ctor, callback=cb)
        else:
            l = Listener("topic", ros.Joy, block_ctor, cb, 10)
        lst[i] = l
        s.log("constructed", i)
        return l
    made = []
    done = []

    def reader(l, which, ops):
        seen = (0, None)
        for blocking, delay in ops:
            if delay:
                s.sleep(delay)
            gb = tick(s)
            r = l.get() if blocking and s.chance(50) else l.get(blocking)
            ge = tick(s)
            k = freeze(r)
            s.log("get", "blocking" if blocking else "", r.header.frame_id if r is not None else None)
            d = dels[l.subscriber]
            s.check(d.allowed(gb, ge, k), "stale-read", lambda: f"a read returned {k}, which was not the latest message then; deliveries {d.l}")
            if blocking and r is None:
                s.check(w.shutdown, "empty-blocking-read", "a blocking read returned nothing although ROS was running")
            # no going back between two reads of one reader
            if seen[1] is not None:
                s.check(k is not None, "read-back", "a later read returned nothing")
                if k != seen[1]:
                    old = [x for x in d.l if x[2] == k]
                    new = [x for x in d.l if x[2] == seen[1]]
                    s.check(any(o[1] is None or o[1] > x[0] for o in old for x in new), "read-back",
                            lambda: f"a read returned {k} after an earlier read had returned the newer {seen[1]}")
            seen = (0, k)
            if r is not None:      # change everything in the copy
                r.axes.append(99.0)
                r.axes[0] = 77.0
                r.header.frame_id = "changed"
                r.buttons.clear()
        done.append(1)

    def owner(i):
        made.append(make(i))

    n_l = 2 if two else 1
    for i in range(n_l):
        if block_ctor and (two or not any(plans)) and w.shutdown_at is None:
            w.shutdown_at = s.now + 150 * MS
        cb = tick(s)
        owner(i)
        if block_ctor and not w.shutdown:
            l = made[-1]
            d = dels[l.subscriber]
            s.check(any(True for b, *_ in d.l), "ctor-early", "the constructor was to wait for data but returned before any message")
    allops = []
    for r in range(1 + s.choose(3)):
        l = made[s.choose(len(made))]
        ops = [(s.chance(40), s.choose(3) * s.pick([0, MS, 15 * MS])) for _ in range(1 + s.choose(4))]
        allops.append((l, ops))
    if w.shutdown_at is None and any(b for _, o in allops for b, _ in o) and (not any(plans) or len(subs) > 1):
        w.shutdown_at = s.now + 300 * MS
    for r, (l, ops) in enumerate(allops):
        threads.append(s.go(reader, l, r, ops, name="reader"))
    ok = s.wait_until(lambda: all(t.done for t in threads), 20_000 * MS, 5 * MS)
    s.check(ok, "stuck", lambda: "a reader or the connection never finished: " + ", ".join(f"{t.name}:{t.waiting}" for t in threads if not t.done))
    # final state: equal to the last delivery, isolated from what readers did
    for i, l in enumerate(made):
        d = dels[l.subscriber]
        gb = tick(s)
        r = l.get(False)
        s.check(d.allowed(gb, tick(s), freeze(r)), "final-read", lambda: f"the last read returned {freeze(r)}; deliveries {d.l}")
        if cbmode != "none":
            want = [x[2] for x in d.l]
            got = [k for _, k in order[i]]
            s.check(sorted(want) == sorted(got), "callback-count",
                    lambda: f"{len(want)} messages were delivered, the callback ran {len(got)} times; "
                            f"errors in the connection: {[repr(e) for e in w.bad_callbacks][:2]}")
            pos = {k: j for j, k in enumerate(got)}
            for a in d.l:
                for b in d.l:
                    if a[1] is not None and a[1] < b[0]:
                        s.check(pos[a[2]] < pos[b[2]], "callback-order", lambda: f"callbacks ran in the order {got}, deliveries were {want}")
    if w.shutdown:
        s.probe("shutdown")
    if n:
        s.probe("messages", )


class Odd(Exception):
    pass


def c22(s):
    w = ros.new_world(s)
    if s.chance(30):
        w.sim_time = s.pick([0, 5_000_000_000, 1_000_000_000_000])
    s.oversleep = s.pick([0, 0, 4 * MS, 60 * MS])
    mode = s.pick(["time", "thread", "shutdown", "both", "raise", "now", "count"])
    warn = s.pick([10, 10, 1, 0, None, 3, 0.1, 0.05])
    name = s.pick(["", "thing", None, "Listener(x)"])
    horizon = s.pick([40, 40, 100, 100, 300, 300, 1000, 2500, 14_000, 26_000]) * MS
    cost = s.pick([0, 0, 1 * MS, 30 * MS])
    st = dict(true_at=None, last=None, evals=0, true_seen=None)
    t_true = s.now + s.choose(64) * horizon // 64
    raise_at = 1 + s.choose(6)
    count_at = 1 + s.choose(30)
    if mode in ("shutdown", "both"):
        w.shutdown_at = s.now + s.choose(64) * horizon // 64
    boom = s.pick([Odd, KeyboardInterrupt, TimeoutError, ValueError])("from the condition")
    flag = [mode == "now"]

    def setter():
        s.sleep(t_true - s.now)
        flag[0] = True
        st["true_at"] = s.now
        s.log("condition becomes true")

    def clock():
        rate = s.pick([1, 1, 0, 3])
        for _ in range(12):
            s.sleep(horizon // 10)
            if not st["evals"]:
                continue
            if w.sim_time is not None:
                w.sim_time += rate * horizon // 10
            if jumps and s.chance(20):
                j = s.pick([-3, -11, -100, 2, 6, 20, 3600]) * 1_000_000_000
                if w.sim_time is not None:
                    w.sim_time = max(0, w.sim_time + j)
                else:
                    w.jump += j
                jumped[0] = True
                s.fault("clock_jump")
                s.log("clock jump", j)
    jumps = s.chance(30)
    jumped = [False]

    def func():
        s.check(not st["last"], "evaluated-again", "the condition was evaluated again after it had been true")
        st["evals"] += 1
        s.log("evaluate", st["evals"])
        if cost:
            s.sleep(cost)
        if mode == "raise" and st["evals"] == raise_at:
            s.fault("condition_raises")
            raise boom
        if mode == "count":
            r = st["evals"] >= count_at
            if r:
                st["true_at"] = s.now
        else:
            r = flag[0]
        st["last"] = r
        s.yield_point()
        return s.pick([1, True, "yes", [0]]) if r else s.pick([False, None, 0, ""])
    th = []
    if mode in ("time", "thread", "both"):
        th.append(s.go(setter, name="setter"))
    if w.shutdown_at is not None:
        th.append(s.go(w.stopper, name="master"))
    if w.sim_time is not None or jumps:
        th.append(s.go(clock, name="clock"))
    warns = []

    def on_log(level, text):
        warns.append((level, text, s.now, w.now_ns()))
    w.on_log = on_log
    s.start_preempting(gap=s.pick([0, 30]), stall_ns=s.pick([0, 0, 50 * MS]))
    t_call, ros_call = s.now, w.now_ns()
    steady = w.sim_time is None
    err = None
    try:
        if warn == 10 and s.chance(50):
            if name:
                ros_helpers.wait_for(func, name=name)
            else:
                ros_helpers.wait_for(func)
                name = ""
        else:
            ros_helpers.wait_for(func, warn, name)
    except (Odd, KeyboardInterrupt, TimeoutError, ValueError) as e:
        err = e
    t_ret = s.now
    s.log("returned", "raised" if err else "")
    if mode == "raise":
        s.check(err is boom, "exception-lost", f"the condition raised {boom!r}, waiting ended with {err!r}")
    else:
        s.check(err is None, "raised", f"waiting raised {err!r}")
        s.check(bool(st["last"]) or w.shutdown, "returned-early", "waiting returned although the condition was false and ROS was running")
        evs = [t for t in (t_call if mode == "now" else st["true_at"], w.shutdown_t) if t is not None and t <= t_ret]
        s.check(bool(evs), "returned-early", "waiting returned before anything happened")
        first = max(t_call, min(evs))
        late = t_ret - first
        bound = 10 * MS + 2 * cost + s.lateness(first - 11 * MS) + 3 * MS
        s.check(late <= bound, "late", f"waiting returned {late / 1e6:.1f} ms after the condition held or ROS stopped (allowed {bound / 1e6:.1f})")
    s.check(st["evals"] >= 1, "unevaluated", "the condition was never evaluated")
    for level, text, t, rt in warns:
        if level != "warn":
            continue
        s.probe("warned")
        s.check(warn is not None, "warned-disabled", f"warned '{text}' although warnings are off")
        if steady and not jumped[0] or not steady:
            if not jumped[0]:
                s.check(rt - ros_call > warn * 10 ** 9, "warned-early", f"warned {(rt - ros_call) / 1e9:.3f} s after the start, configured {warn} s")
        if name:
            s.check(name in text, "warning-text", f"the warning '{text}' does not name '{name}'")
    wl = [x for x in warns if x[0] == "warn"]
    if not jumped[0]:
        for a, b in zip(wl, wl[1:]):
            s.check(b[3] - a[3] >= 5 * 10 ** 9 - 1, "unthrottled", f"two warnings {(b[3] - a[3]) / 1e9:.3f} s apart")
        if steady and warn is not None and mode != "raise":
            waited = t_ret - t_call
            if waited > warn * 10 ** 9 + 25 * MS + 2 * cost + s.lateness(t_call):
                s.check(bool(wl), "not-warned", f"waited {waited / 1e9:.2f} s without a warning (configured {warn} s)")
    if horizon > 9000 * MS:
        s.probe("long_wait")


XPAD = ("A B X Y LB RB back start power stick_button_left stick_button_right DL DR DU DD".split(), "LH LV LT RH RV RT DH DV".split())
XDRV = ("A B X Y LB RB back start power stick_button_left stick_button_right".split(), "LH LV LT RH RV RT DH DV".split())


def c34(s):
    w = ros.new_world(s)
    s.oversleep = s.pick([0, 0, 5 * MS])
    xpad = s.chance(50)
    names = XPAD if xpad else XDRV
    button = s.pick(names[0] + names[1])
    nm = s.choose(7)
    plan = []
    spread = s.pick([0, MS, 8 * MS, 40 * MS])
    for i in range(nm):
        m = joy(s, i, len(names[0]), len(names[1]))
        if not s.chance(35):
            if button in names[0]:
                m.buttons[names[0].index(button)] = 0
            else:
                m.axes[names[1].index(button)] = s.pick([0, 0.0, -0.0])
        if s.chance(12):
            s.fault("message_lost")
            continue
        plan.append((s.choose(6) * spread, m))
    val = {}
    for _, m in plan:
        d = {n: m.buttons[k] for k, n in enumerate(names[0])}
        d.update({n: m.axes[k] for k, n in enumerate(names[1])})
        val[freeze(m)] = d
    subs, dels, threads = [], {}, []

    def on_sub(sub):
        subs.append(sub)
        dels[sub] = Deliveries()
        threads.append(s.go(connection, s, subs, dels, plan, None, name="connection"))
    w.on_subscribe = on_sub
    w.shutdown_at = s.now + (s.choose(20) * 8 * MS if s.chance(30) else s.pick([120, 250, 600]) * MS)
    stop_time = w.shutdown_at
    s.start_preempting(stall_ns=s.pick([0, 0, 6 * MS]))
    x = Xbox("joy", xpad) if s.chance(70) else Xbox(joystick_topic="joy", xpad=xpad)
    d = dels[subs[0]]

    def pressed(k):
        return val[k][button] != 0

    def waiter():
        cb, tb = tick(s), s.now
        x.wait_for_button(button, s.chance(50)) if s.chance(50) else x.wait_for_button(button)
        ce, te = tick(s), s.now
        s.log("button wait returned")
        if not w.shutdown:
            # a pressed message was the newest during this call, and still was at the last poll
            good = False
            for i, rec in enumerate(d.l):
                if not pressed(rec[2]) or rec[0] > ce:
                    continue
                nxt = d.l[i + 1] if i + 1 < len(d.l) else None
                if nxt is None or nxt[1] is None or nxt[1] > cb and nxt[3] >= te - 4 * MS - s.lateness(te - 4 * MS):
                    good = True
            s.check(good, "returned-unpressed", lambda: f"waiting for {button} returned, but no message showed it pressed; messages {[(r[0], r[1], val[r[2]][button]) for r in d.l]}, call [{cb},{ce}]")
            s.probe("pressed")
        else:
            s.probe("shutdown")
        # promptness: a pressed message that stayed newest for a whole poll must have ended the wait
        for i, rec in enumerate(d.l):
            if len(rec) < 4 or not pressed(rec[2]):
                continue
            nxt = d.l[i + 1] if i + 1 < len(d.l) else None
            until = nxt[3] if nxt is not None and len(nxt) > 3 else te
            frm = max(rec[3], tb)
            if until > te:
                until = te
            room = 10 * MS + 6 * MS + s.lateness(frm - 11 * MS)
            s.check(until - frm <= room, "missed-press", f"{button} was pressed in the newest message for {(until - frm) / 1e6:.1f} ms while the wait went on")
        if w.shutdown_at is not None and te > stop_time:
            s.check(te - max(stop_time, tb) <= 16 * MS + s.lateness(max(stop_time, tb) - 11 * MS), "late-shutdown", f"waiting went on {(te - stop_time) / 1e6:.1f} ms after the shutdown")

    def reader():
        for _ in range(1 + s.choose(4)):
            s.sleep(s.choose(4) * spread)
            kind = s.pick(["state", "button", "axis", "delta"])
            gb = tick(s)
            try:
                if kind == "state":
                    r = x.get_buttons_state()
                elif kind == "button":
                    bn = s.pick(names[0] + names[1])
                    r = x.get_button(bn)
                elif kind == "axis":
                    ax = s.pick([0, 1, 2, 4, 5])
                    r = x.get_axis_normalized(ax)
                else:
                    r = [float(v) for v in x.get_3d_delta()]
            except AttributeError:
                s.check(w.shutdown and not any(rec[1] is not None and rec[1] < gb for rec in d.l), "read-raised", "reading the controller raised although a message was there")
                return
            ge = tick(s)
            keys = [k for k in val if d.allowed(gb, ge, k)]
            dz = lambda v: 0 if abs(v) < 0.05 else v                               # noqa
            if kind == "state":
                got = dict(vars(r))
                s.check(any(got == val[k] for k in keys), "state-mixed", lambda: f"the state {got} is not that of one message that was newest during the read")
                str(r)
            elif kind == "button":
                s.check(any(r == val[k][bn] for k in keys), "button-wrong", lambda: f"{bn} read as {r}; possible {[val[k][bn] for k in keys]}")
            elif kind == "axis":
                s.check(any(r == dz(-val[k][names[1][ax]] if ax == 0 else val[k][names[1][ax]]) for k in keys), "axis-wrong", lambda: f"axis {ax} read as {r}")
            else:
                s.check(any(r == [dz(-val[k]["LH"]), dz(val[k]["LV"]), dz(val[k]["RV"])] for k in keys), "delta-mixed",
                        lambda: f"the motion {r} is not that of one message that was newest during the read: {[[-val[k]['LH'], val[k]['LV'], val[k]['RV']] for k in keys]}")
            s.log("read", kind)

    threads.append(s.go(w.stopper, name="master"))
    for _ in range(1 + s.chance(20)):
        threads.append(s.go(waiter, name="waiter"))
    for _ in range(s.choose(3)):
        threads.append(s.go(reader, name="reader"))
    ok = s.wait_until(lambda: all(t.done for t in threads), 20_000 * MS, 5 * MS)
    s.check(ok, "stuck", lambda: "never finished: " + ", ".join(t.name for t in threads if not t.done))


SCENARIOS = {"C21": c21, "C22": c22, "C34": c34}
