"""C23-C26: the transform wrapper and the managed transforms on a simulated transform network."""
import copy, gc, heapq, math

import simcore
simcore.install()
import ros_stub as ros  # noqa: E402
ros.install()
import numpy as np  # noqa: E402
from arc_utilities.tf2wrapper import TF2Wrapper  # noqa: E402
from arc_utilities.reliable_tf import ReliableTF  # noqa: E402

MS = 1_000_000


class Net:
    """/tf and /tf_static between the publishers of this process, another node and the listeners"""

    def __init__(self, s, w):
        self.s, self.w = s, w
        self.heap, self.n = [], 0
        self.listeners = []          # (buffer, since)
        self.sent = []               # (time, ros time, topic, snapshot, thread)
        self.loss = self.dup = 0
        self.delay = 0
        self.conn = 0
        self.heal_at = s.now
        self.hold = 0
        w.net = self
        w.on_publish = self.publish
        self.thr = s.go(self.run, name="network")

    def configure(self, heal_ms):
        s = self.s
        self.heal_at = s.now + heal_ms * MS
        self.loss = s.pick([0, 20, 60, 100])
        self.dup = s.pick([0, 0, 30])
        self.delay = s.pick([0, 5, 60, 250]) * MS
        self.conn = s.pick([0, 0, 30, 200]) * MS

    def add_listener(self, buf):
        self.listeners.append((buf, self.s.now + (self.s.choose(4) * self.conn // 3 if self.conn else 0)))
        for p in self.w.pubs:
            if p.latch and p.latched is not None:
                self.push(self.listeners[-1][1], buf, None, p)

    def push(self, when, buf, msg, pub):
        self.n += 1
        heapq.heappush(self.heap, (when, self.n, buf, msg, pub))
        self.s.unblock(self.thr)

    def publish(self, pub, msg):
        s = self.s
        snap = copy.deepcopy(msg)
        static = pub.name.endswith("static")
        self.sent.append((s.now, self.w.now_ns(), static, snap, s.cur.id))
        s.log("publish", pub.name, [(t.header.frame_id, t.child_frame_id, t.header.stamp.to_nsec() - s.wall_off if self.w.sim_time is None else t.header.stamp.to_nsec(),
                                     [round(float(x), 5) for x in ros.tmat(t)[:3].ravel()]) for t in snap.transforms])
        for buf, since in self.listeners:
            if s.now < since:
                s.fault("not_yet_connected")
                if static:
                    self.push(since, buf, None, pub)
                continue
            self.route(buf, snap, pub)

    def route(self, buf, snap, pub):
        s = self.s
        healthy = s.now >= self.heal_at
        if not healthy:
            if self.loss and s.chance(self.loss):
                s.fault("message_lost")
                return
            if self.dup and s.chance(self.dup):
                s.fault("message_duplicated")
                self.push(s.now + s.choose(8) * max(1, self.delay // 4), buf, snap, pub)
        d = 0
        if self.delay and not healthy:
            d = s.choose(8) * self.delay // 7
            if d:
                s.fault("message_delayed")
        self.push(s.now + d, buf, snap, pub)

    def run(self):
        s = self.s
        while True:
            if not self.heap:
                s.block("network")
                continue
            if self.heap[0][0] > s.now:
                s.block("network", self.heap[0][0] - s.now)
                continue
            _, _, buf, msg, pub = heapq.heappop(self.heap)
            if msg is None:
                msg = copy.deepcopy(pub.latched)
            for t in msg.transforms:
                buf.set_transform(copy.deepcopy(t), "sim", pub.name.endswith("static"))
                s.log("received", t.header.frame_id, t.child_frame_id)
            s.yield_point()


def tick(s):
    s.seqno = getattr(s, "seqno", 0) + 1
    return s.seqno


def quat(s):
    k = s.choose(10)
    if k == 0:
        return [0.0, 0.0, 0.0, 1.0]
    if k == 1:
        return s.pick([[1.0, 0, 0, 0], [0, 1.0, 0, 0], [0, 0, 1.0, 0], [0, 0, 0, -1.0]])
    v = np.array([s.choose(201) - 100.0 for _ in range(4)])
    if k == 2:
        v[3] = 0
    n = np.linalg.norm(v)
    if n < 1e-9:
        return [0.0, 0.0, 0.0, 1.0]
    return [float(x) for x in v / n]


def motion(s):
    sc = s.pick([1.0, 1e-3, 100.0])
    return [sc * (s.choose(201) - 100) / 50 for _ in range(3)], quat(s)


def vary(s, m):
    """a motion that differs from m in one respect"""
    t, q = list(m[0]), list(m[1])
    k = s.choose(5)
    if k == 0:
        i = s.choose(3)
        t[i] += s.pick([1.0, 0.01, -3.0])
        return t, q
    if k == 1:
        return t, quat(s)
    if k == 2:
        q2 = [q[0], q[1], q[2], q[3] + 0.03]
        n = math.sqrt(sum(x * x for x in q2))
        return t, [x / n for x in q2]
    if k == 3:
        return [-x for x in t], q
    return motion(s)


def mat(m):
    r = ros.quaternion_matrix(m[1])
    r[:3, 3] = m[0]
    return r


def same(a, b, tol=1e-5):
    return a is not None and np.allclose(a, b, rtol=tol, atol=tol)


def pose(m):
    p = ros.Pose()
    p.position = ros.Point(*m[0])
    p.orientation = ros.Quaternion(*m[1])
    return p


FRAMES = ["world", "a", "b", "c", "d"]


def clock_thread(s, w, period, stop):
    while not stop[0]:
        s.sleep(period)
        w.sim_time += period


def start(s, tf, m, parent, child, static, form=None):
    """start sending in one of the three forms; the caller's objects are changed afterwards"""
    form = s.pick(["components", "matrix", "pose"]) if form is None else form
    spoil = s.chance(30)
    pos = s.chance(50)
    kw = dict(is_static=static) if static or s.chance(30) else {}
    s.log("start", form, parent, child, "static" if static else "", [round(x, 5) for x in list(m[0]) + list(m[1])])
    if form == "components":
        t, q = list(m[0]), list(m[1])
        if s.chance(40):
            t, q = np.array(t), np.array(q)
        tf.start_send_transform(t, q, parent, child, **kw) if pos else tf.start_send_transform(translation=t, quaternion=q, parent=parent, child=child, **kw)
        if spoil:
            t[0], q[3] = 55.0, 0.5
    elif form == "matrix":
        a = mat(m)
        tf.start_send_transform_matrix(a, parent, child, **kw) if pos else tf.start_send_transform_matrix(transform=a, parent=parent, child=child, **kw)
        if spoil:
            a[:3, 3] = 55.0
    else:
        p = pose(m)
        tf.start_send_transform_from_pose_msg(p, parent, child, **kw) if pos else tf.start_send_transform_from_pose_msg(pose=p, parent=parent, child=child, **kw)
        if spoil:
            p.position.x = 55.0
            p.orientation.w = 0.3
            p.orientation = ros.Quaternion(1, 0, 0, 0)
    if spoil:
        s.probe("caller_changed_its_objects")
    s.log("started", parent, child)


def old_publisher(s, net, w, parent, child, m, static):
    """another node sends an earlier transform for the same frames once, before anything else"""
    b = ros.StaticTransformBroadcaster() if static else ros.TransformBroadcaster()
    t = ros.TransformStamped()
    t.header.frame_id, t.child_frame_id = parent, child
    t.header.stamp = ros.Time.now()
    t.transform.translation = ros.Vector3(*m[0])
    t.transform.rotation = ros.Quaternion(*m[1])
    b.pub_tf.other = True
    b.sendTransform(t)


def world(s, heal):
    w = ros.new_world(s)
    w.can_cost = s.pick([300_000, 2 * MS])
    if s.chance(25):
        w.sim_time = s.pick([1, 50, 1_000_000]) * 1_000_000_000
    net = Net(s, w)
    net.configure(heal)
    return w, net


def senders(s):
    return [t for t in s.threads if not t.done and t.name == "thread"]


def published(net, parent, child, since, static=None):
    """[(time, ros time, transform)] of new sends for the frames; a static transform that is only carried along counts once"""
    out = []
    last = {}
    for (t, rt, st, msg, thr) in net.sent:
        for x in msg.transforms:
            if x.header.frame_id == parent and x.child_frame_id == child:
                key = (x.header.stamp.to_nsec(), repr(x.transform))
                if st and last.get((parent, child)) == key:
                    continue
                last[(parent, child)] = key
                if t >= since and (static is None or st == static):
                    out.append((t, rt, x))
    return out


def c23(s):
    heal = s.pick([0, 0, 200, 500, 1000])
    w, net = world(s, heal)
    w.can_cost = s.pick([1, 4, 8]) * MS
    stop = [False]
    if w.sim_time is not None:
        s.go(clock_thread, s, w, 10 * MS, stop, name="clock")
    s.oversleep = s.pick([0, 0, 10 * MS])
    if s.chance(12):
        w.shutdown_at = s.now + s.choose(30) * 40 * MS
        s.go(w.stopper, name="master")
    if s.chance(15):
        left = [1 + s.choose(3)]

        def lookup_fault(b, target, source):
            if left[0] and s.chance(50):
                left[0] -= 1
                e = s.pick([ros.LookupException, ros.ConnectivityException, ros.ExtrapolationException])("injected")
                s.fault("lookup_fails")
                w.lookups.append((target, source, None, e, s.now, None))
                return e
        w.lookup_fault = lookup_fault
    tf = ReliableTF()
    s.wait_until(lambda: s.now >= max([since for _, since in net.listeners]), 1000 * MS)
    pairs = [("world", "a"), ("world", "b"), ("a", "c")]
    todo = []
    for i in range(1 + s.choose(3)):
        p = pairs[s.choose(len(pairs))]
        todo.append((p, motion(s), s.chance(30)))
    # an earlier transform for the first frames is already known, also to the listener
    if s.chance(60):
        p, m, st = todo[0]
        save = net.loss, net.delay
        net.loss, net.delay = 0, 0
        old_publisher(s, net, w, p[0], p[1], vary(s, m), s.chance(20))
        net.loss, net.delay = save
        s.sleep(5 * MS)
        s.probe("earlier_transform_known")
    s.start_preempting(gap=s.pick([0, 0, 60]), stall_ns=s.pick([0, 0, 40 * MS]))
    active = {}
    try:
        for (parent, child), m, st in todo:
            # a frame has one parent: stop what would give it another
            t0 = s.now
            n0 = len(w.lookups)
            if (parent, child) in active and s.chance(50):
                m = vary(s, active[(parent, child)][0])
            start(s, tf, m, parent, child, st)
            t1 = s.now
            got = [x for x in w.lookups[n0:] if x[0] == parent and x[1] == child and x[2] is not None]
            s.check(any(same(x[2], mat(m)) for x in got), "not-visible",
                    lambda: f"starting {parent}->{child} returned, but the transform was not received back; last received {None if not got else got[-1][2]}")
            bound = max([t0, net.heal_at] + [x[4] for x in w.lookups[n0:] if x[3] is not None]) + 100 * MS + 260 * MS + 2 * net.conn + net.delay + 12 * w.can_cost + s.lateness(t0 - 100 * MS)
            s.check(t1 <= bound, "start-slow", f"starting took until {(t1 - max(t0, net.heal_at)) / 1e6:.0f} ms after messages got through")
            active[(parent, child)] = (m, t1, st)
            s.probe("started")
    except KeyboardInterrupt:
        s.check(w.shutdown, "interrupt", "starting a transform raised an interrupt while ROS was running")
        s.probe("shutdown_while_starting")
        tf.close()
        return
    # keeps re-sending, with fresh stamps
    frm = s.now
    jumped = 0
    if s.chance(30) and not w.shutdown_at:
        s.sleep(s.choose(10) * 20 * MS)
        j = s.pick([-2, -50, 5]) * 1_000_000_000
        if w.sim_time is not None:
            w.sim_time = max(1, w.sim_time + j)
        else:
            w.jump += j
        s.fault("clock_jump")
        s.log("clock jump", j)
    watch = s.pick([350, 900]) * MS
    s.sleep(watch)
    end = s.now
    late = s.lateness(frm - 150 * MS)
    gap = (100 + (45 if w.sim_time is not None else 0) + 25) * MS + late
    for (parent, child), (m, t1, st) in active.items():
        l = published(net, parent, child, frm)
        s.check(not published(net, parent, child, frm, not st), "wrong-kind", f"{parent}->{child} was sent as a {'dynamic' if st else 'static'} transform, asked for was a {'static' if st else 'dynamic'} one")
        if not w.shutdown:
            times = [frm] + [x[0] for x in l] + [end]
            worst = max(b - a for a, b in zip(times, times[1:]))
            s.check(worst <= gap, "resend-gap", f"{parent}->{child} was not sent for {worst / 1e6:.0f} ms (allowed {gap / 1e6:.0f})")
            s.check(len(l) <= 4 + (end - frm) * 20 // 10 ** 9, "resend-fast", f"{parent}->{child} was sent {len(l)} times in {(end - frm) / 1e9:.2f} s")
        for t, rt, x in l:
            s.check(same(ros.tmat(x), mat(m)), "wrong-transform", lambda: f"{parent}->{child} is sent as {ros.tmat(x).tolist()}, asked for {mat(m).tolist()}")
            age = rt - x.header.stamp.to_nsec()
            s.check(-60 * 10 ** 9 <= age <= 40 * MS + late or abs(age) > 10 ** 9 and "clock_jump" in s.faults, "stale-stamp",
                    f"{parent}->{child} was sent with a stamp {age / 1e6:.1f} ms old")
    tf.close()
    stop[0] = True


def c24(s):
    heal = s.pick([0, 0, 0, 150])
    w, net = world(s, heal)
    net.loss = min(net.loss, 60)
    stop = [False]
    if w.sim_time is not None:
        s.go(clock_thread, s, w, 10 * MS, stop, name="clock")
    s.oversleep = s.pick([0, 0, 10 * MS])
    shut = s.chance(15)
    if shut:
        w.shutdown_at = s.now + s.choose(30) * 40 * MS
        s.go(w.stopper, name="master")
    mgr = [ReliableTF() for _ in range(1 + s.chance(25))]
    s.wait_until(lambda: s.now >= max([since for _, since in net.listeners]), 1000 * MS)
    s.start_preempting(gap=s.pick([0, 20, 60]), stall_ns=s.pick([0, 0, 20 * MS]))
    pairs = [("world", "a"), ("world", "b"), ("b", "c")]
    owner = {p: s.choose(len(mgr)) for p in pairs}
    active = {}
    stopped = {}          # pair -> (time, static, last new send)
    ended = {}

    def check_quiet():
        for p, (t, last) in stopped.items():
            for (pt, rt, st, msg, thr) in net.sent:
                if pt <= t:
                    continue
                for x in msg.transforms:
                    if (x.header.frame_id, x.child_frame_id) == p:
                        s.check(False, "sent-after-stop", f"{p[0]}->{p[1]} was published {(pt - t) / 1e6:.2f} ms after sending it had been stopped")

    def last_key(p):
        l = [x for (t, rt, st, msg, thr) in net.sent for x in msg.transforms if (x.header.frame_id, x.child_frame_id) == p]
        return (l[-1].header.stamp.to_nsec(), repr(l[-1].transform)) if l else None

    def mark_stopped(p):
        stopped[p] = (s.now, last_key(p))
    since = {}
    try:
        for _ in range(2 + s.choose(6)):
            op = s.pick(["start", "start", "stop", "wait", "close", "unknown", "replace", "del"])
            p = pairs[s.choose(3)]
            m_i = owner[p]
            if mgr[m_i] is None:
                mgr[m_i] = ReliableTF()
            if op == "replace" and active:
                p = s.pick(sorted(active))
                m_i = owner[p]
            if op in ("start", "replace"):
                m = motion(s) if p not in active or s.chance(50) else vary(s, active[p][0])
                st = s.chance(25)
                stopped.pop(p, None)
                start(s, mgr[m_i], m, p[0], p[1], st)
                active[p] = (m, s.now)
                s.probe("started")
            elif op == "stop":
                s.log("stop", *p)
                mgr[m_i].stop_send(*p) if s.chance(50) else mgr[m_i].stop_send(parent=p[0], child=p[1])
                s.log("stopped", *p)
                if p in active:
                    del active[p]
                    mark_stopped(p)
                    s.probe("stopped")
            elif op == "unknown":
                mgr[m_i].stop_send("world", "nothing")
                mgr[m_i].stop_send(p[1], p[0])
            elif op in ("close", "del"):
                i = s.choose(len(mgr))
                if mgr[i] is None:
                    continue
                s.log(op, i)
                if op == "close":
                    mgr[i].close()
                else:
                    mgr[i] = None
                s.log("closed")
                for q in [q for q in active if owner[q] == i]:
                    del active[q]
                    mark_stopped(q)
                s.probe("closed")
            if op == "wait" or s.chance(40):
                s.sleep(s.pick([0, 30, 120]) * MS)
            check_quiet()
            if not active:
                s.check(not senders(s), "sender-left", lambda: f"{len(senders(s))} sender threads still run although nothing is to be sent")
        t0 = s.now
        w0 = w.shutdown
        s.sleep(260 * MS)
        check_quiet()
        late = s.lateness(t0 - 150 * MS)
        for p, (m, t1) in active.items():
            l = published(net, p[0], p[1], t1)
            for t, rt, x in l:
                s.check(same(ros.tmat(x), mat(m)), "old-transform", lambda: f"{p[0]}->{p[1]} is still sent as {ros.tmat(x).tolist()} after it was replaced by {mat(m).tolist()}")
            for (t, rt, st, msg, thr) in net.sent:
                if t >= t1:
                    for x in msg.transforms:
                        if (x.header.frame_id, x.child_frame_id) == p:
                            s.check(same(ros.tmat(x), mat(m)), "old-transform", lambda: f"{p[0]}->{p[1]} is still published as {ros.tmat(x).tolist()} after it was replaced")
            if not w.shutdown:
                l2 = [x for x in l if x[0] >= t0]
                need = 260 * MS > 170 * MS + late
                s.check(bool(l2) or not need, "others-stopped", f"{p[0]}->{p[1]} is no longer sent although it was not stopped")
        if w.shutdown:
            # senders end by themselves once ROS is down
            s.wait_until(lambda: s.now >= w.shutdown_t + 200 * MS + s.lateness(w.shutdown_t - 100 * MS), 5000 * MS)
            s.check(not senders(s), "sender-after-shutdown", "a sender thread still runs after ROS was shut down")
            s.probe("shutdown")
    except KeyboardInterrupt:
        s.check(w.shutdown, "interrupt", "an operation raised an interrupt while ROS was running")
        for i in range(len(mgr)):
            if mgr[i] is not None:
                mgr[i].close()
        s.check(not senders(s), "sender-left", "a sender thread still runs after closing")
        return
    for i in range(len(mgr)):
        if mgr[i] is not None:
            if s.chance(50):
                mgr[i].close()
            mgr[i] = None
    t = s.now
    s.check(not senders(s), "sender-left", lambda: f"{len(senders(s))} sender threads still run after closing")
    n = len(net.sent)
    s.sleep(230 * MS)
    s.check(len(net.sent) == n, "sent-after-close", "something was published after every manager had been closed")


def c25(s):
    heal = s.pick([0, 200, 600])
    w, net = world(s, heal)
    stop = [False]
    if w.sim_time is not None:
        s.go(clock_thread, s, w, 10 * MS, stop, name="clock")
    s.oversleep = s.pick([0, 0, 10 * MS])
    if s.chance(35):
        w.shutdown_at = s.now + s.choose(24) * 30 * MS
        s.go(w.stopper, name="master")
    # another node sends transforms at chosen moments; frames may change their parent
    plan = []
    tree = s.pick([[("world", "a")], [("world", "a"), ("world", "b")], [("world", "a"), ("a", "b")], [("world", "a"), ("a", "b"), ("b", "c")],
                   [("world", "a"), ("b", "c")]])
    for p, c in tree:
        base = s.choose(8) * 40 * MS
        for k in range(1 + s.choose(4)):
            pp = p if not s.chance(10) else s.pick(["world", "d"])
            plan.append((base + k * s.pick([5, 30, 90]) * MS, pp, c, motion(s), s.chance(20)))
    plan.sort(key=lambda x: x[0])

    def other_node():
        bd, bs = ros.TransformBroadcaster(), ros.StaticTransformBroadcaster()
        t0 = s.now
        for d, p, c, m, st in plan:
            if t0 + d > s.now:
                s.sleep(t0 + d - s.now)
            t = ros.TransformStamped()
            t.header.frame_id, t.child_frame_id = p, c
            t.header.stamp = ros.Time.now()
            t.transform.translation = ros.Vector3(*m[0])
            t.transform.rotation = ros.Quaternion(*m[1])
            (bs if st else bd).sendTransform(t)
    buf = ros.Buffer()
    own = s.chance(50)
    tfw = TF2Wrapper(buf, ros.TransformListener(buf)) if own else TF2Wrapper()
    if own:
        s.check(tfw.tf_buffer is buf, "own-buffer", "the given buffer is not used")
    else:
        buf = tfw.tf_buffer
    s.go(other_node, name="other node")
    inject = s.chance(25)
    injected = []

    def lookup_fault(b, target, source):
        if inject and s.chance(40):
            e = s.pick([ros.LookupException, ros.ConnectivityException, ros.ExtrapolationException])("injected")
            s.fault("lookup_fails")
            injected.append(e)
            w.lookups.append((target, source, None, e, s.now, None))
            return e
    w.lookup_fault = lookup_fault
    s.start_preempting(gap=s.pick([0, 20, 60]), stall_ns=s.pick([0, 0, 20 * MS]))
    avail = {}

    def caller():
        frames = ["world"] + [c for _, c in tree]
        pairs = []
        for _ in range(1 + s.choose(5)):
            if w.shutdown and s.chance(50):
                break
            parent, child = s.pick(frames), s.pick(frames)
            if parent == child:
                continue
            verbose = s.chance(50)
            spin = s.pick([100, 100, 20, 300])
            kind = s.pick(["matrix", "matrix", "msg"])
            when = ros.Time()
            if s.chance(12):
                when = ros.Time.from_ns(w.now_ns() - s.choose(5) * 20 * MS)
            if pairs and s.chance(50):
                parent, child, when = s.pick(pairs)
            pairs.append((parent, child, when))
            n0, l0, t0 = len(w.lookups), len(w.logs), s.now
            wn = None if when.is_zero() else when.to_nsec()
            seen = set()        # was the transform available, unavailable while the call ran

            def look(b):
                if b is buf:
                    seen.add(b._lookup(parent, child, wn)[1] is None)
            look(buf)
            w.watch = look
            kw = {}
            if not verbose or s.chance(50):
                kw["verbose"] = verbose
            if spin != 100:
                kw["spin_delay"] = ros.Duration.from_ns(spin * MS)
            if not when.is_zero():
                kw["time"] = when
            s.log("get", kind, parent, child, spin, "verbose" if verbose else "quiet", "at a time" if not when.is_zero() else "latest")
            r = err = None
            st = w.shutdown
            try:
                r = tfw.get_transform(parent, child, **kw) if kind == "matrix" else tfw.get_transform_msg(parent, child, **kw)
            except KeyboardInterrupt as e:
                err = e
            except (ros.LookupException, ros.ConnectivityException, ros.ExtrapolationException) as e:
                s.check(kind == "msg", "lookup-raised", f"get_transform raised {e!r}")
                err = e
            w.watch = None
            t1 = s.now
            looks = [x for x in w.lookups[n0:]]
            mine = [x for x in looks if x[0] == parent and x[1] == child and x[4] >= t0]
            s.log("got", type(err).__name__ if err else "none" if r is None else "transform")
            if isinstance(err, KeyboardInterrupt):
                s.check(w.shutdown, "interrupt", "a lookup raised an interrupt while ROS was running")
                s.check(False in seen, "interrupt", "a lookup raised an interrupt although its transform was available all the time")
                room = (spin + 60) * MS + s.lateness(w.shutdown_t - 60 * MS) + 6 * w.can_cost + (45 * MS if w.sim_time is not None else 0)
                s.check(t1 - max(w.shutdown_t, t0) <= room, "late-interrupt", f"the lookup noticed the shutdown {(t1 - max(w.shutdown_t, t0)) / 1e6:.0f} ms late")
                s.probe("interrupted")
            elif err is not None:
                s.check(any(x[3] is err for x in mine), "msg-raised", f"get_transform_msg raised {err!r} out of nothing")
            elif r is None:
                s.check(kind == "matrix" and any(x[3] is not None for x in mine), "none", "a lookup returned nothing although the library reported no failure")
                s.check(True in seen or any(x[5] is None for x in mine), "none", "a lookup returned nothing instead of waiting for the transform of the time asked for")
                s.probe("none_returned")
            else:
                m = r if kind == "matrix" else ros.tmat(r)
                good = [x for x in mine if x[3] is None and x[5] == wn]
                s.check(any(same(m, x[2]) for x in good), "wrong-transform",
                        lambda: f"{parent}->{child} was returned as {np.asarray(m).tolist()}; the library's answer for these frames was {[x[2].tolist() for x in good][-1:]}")
                if kind == "matrix":
                    s.check(np.asarray(r).shape == (4, 4), "shape", "not a 4x4 matrix")
                s.probe("transform_returned")
                # promptness
                a = avail_since(parent, child)
            if verbose and t1 - t0 > (spin + 160) * MS + s.lateness(t0):
                s.check(any(x[0] == "info" and parent in x[1] and child in x[1] for x in w.logs[l0:]), "silent", "waited without the message asked for")
            if not verbose:
                s.check(not any(x[0] in ("info", "warn") and "Waiting" in x[1] for x in w.logs[l0:]), "noisy", "printed although asked not to")
            done.append(1)
            if s.chance(50):
                s.sleep(s.choose(6) * 15 * MS)

    def avail_since(p, c):
        return None
    done = []
    c = s.go(caller, name="caller")
    # a watcher notes from when on the newest transform of each pair is available without interruption
    horizon = s.now + 12_000 * MS

    def ready_all():
        return c.done
    last = {}
    t_all = None
    while not c.done and s.now < horizon:
        s.sleep(10 * MS)
        if s.now > net.heal_at + 3500 * MS and not w.shutdown:
            w.stop()
            t_all = s.now
    s.check(c.done, "stuck", "a lookup did not end although ROS was shut down long ago")


def c25b(s):
    """promptness: one pair, one arrival"""
    w, net = world(s, 0)
    net.conn = net.delay = 0
    stop = [False]
    if w.sim_time is not None:
        s.go(clock_thread, s, w, 10 * MS, stop, name="clock")
    s.oversleep = s.pick([0, 5 * MS])
    tfw = TF2Wrapper()
    m = motion(s)
    chain = s.chance(40)
    at = s.now + s.choose(40) * 17 * MS
    arrived = []

    def other():
        if chain:
            old_publisher(s, net, w, "world", "mid", ([0, 0, 0], [0, 0, 0, 1.0]), s.chance(50))
        if at > s.now:
            s.sleep(at - s.now)
        old_publisher(s, net, w, "mid" if chain else "world", "a", m, s.chance(30))
        arrived.append(s.now)
    s.go(other, name="other node")
    inv = s.chance(30)
    s.start_preempting(gap=s.pick([0, 40]), stall_ns=s.pick([0, 20 * MS]))
    t0 = s.now
    spin = s.pick([100, 20, 300])
    r = tfw.get_transform("a" if inv else "world", "world" if inv else "a", s.chance(50), ros.Duration.from_ns(spin * MS))
    t1 = s.now
    s.check(bool(arrived) or len(w.buffers[0].frames) > 0, "early", "a lookup returned before the transform was available")
    exp = np.linalg.inv(mat(m)) if inv else mat(m)
    s.check(same(r, exp), "wrong-transform", lambda: f"returned {None if r is None else r.tolist()}, sent {exp.tolist()}")
    base = max(t0, arrived[0] if arrived else s.now)
    room = 55 * MS + 25 * MS + 8 * w.can_cost + s.lateness(base - 60 * MS) + (45 * MS if w.sim_time is not None else 0)
    s.check(t1 - base <= room, "late", f"the lookup returned {(t1 - base) / 1e6:.0f} ms after the transform was there (allowed {room / 1e6:.0f})")
    s.probe("prompt_lookup")


def c25_all(s):
    c25b(s) if s.chance(35) else c25(s)


def c26(s):
    w, net = world(s, 0)
    tfw = TF2Wrapper()
    nthr = 1 + s.chance(50)
    s.start_preempting(gap=s.pick([10, 20, 60] if nthr > 1 else [0, 20]), stall_ns=s.pick([0, 20 * MS]) if nthr > 1 else 0)
    w.slow_send = s.pick([0, 30, 60]) if nthr > 1 else 0
    sends = []       # dict(begin, end, static, parent, child, m, stamp or None, ros begin/end)
    children = ["a", "b", "c", "d"]
    many = s.chance(6 if nthr > 1 else 15)
    if many:
        children = [f"f{i}" for i in range(5 + s.choose(40))]
    kinds = {}

    def one(frames, static=None):
        m = motion(s)
        child = s.pick(frames)
        parent = s.pick(["world", "world", "root"])
        static = s.chance(50) if static is None else static
        form = s.pick(["components", "matrix", "pose"])
        given = s.chance(40)
        stamp = None if not given else ros.Time() if s.chance(15) else ros.Time.from_ns(1000 * 10 ** 9 + s.choose(10) * 10 ** 9)
        kw = {}
        if static or s.chance(30):
            kw["is_static"] = static
        if given:
            kw["time"] = stamp
        elif s.chance(30):
            kw["time"] = None
        rec = dict(begin=tick(s), end=None, static=static, parent=parent, child=child, m=m, stamp=stamp, r0=w.now_ns(), n0=len(net.sent), thr=s.cur.id)
        sends.append(rec)
        s.log("send", form, parent, child, "static" if static else "dynamic")
        spoil = s.chance(40)
        if form == "components":
            t, q = list(m[0]), list(m[1])
            if s.chance(40):
                t, q = np.array(t), np.array(q)
            tfw.send_transform(t, q, parent, child, **kw)
            if spoil:
                t[1], q[0] = 44.0, 0.7
        elif form == "matrix":
            a = mat(m)
            tfw.send_transform_matrix(a, parent, child, **kw)
            if spoil:
                a[:] = 3.0
        else:
            p = pose(m)
            tfw.send_transform_from_pose_msg(p, parent, child, **kw)
            if spoil:
                p.position.x = 44.0
                p.orientation.x, p.orientation.w = 0.7, 0.1
        rec["end"] = tick(s)
        rec["r1"] = w.now_ns()
        mine = [x for x in net.sent[rec["n0"]:] if x[4] == s.cur.id]
        s.check(len(mine) == 1, "publish-count", f"one send published {len(mine)} messages")
        t, rt, st, msg, thr = mine[0]
        s.check(st == static, "wrong-topic", f"a {'static' if static else 'dynamic'} transform was published as the other kind")
        tr = [x for x in msg.transforms if x.child_frame_id == child]
        s.check(bool(tr), "missing", "the published message does not hold the transform")
        if not static:
            s.check(len(msg.transforms) == 1, "mixed", "a dynamic message holds more than the transform sent")
            if child in kinds and kinds[child] is False:
                pass
        cand = [x for x in tr if x.header.frame_id == parent and same(ros.tmat(x), mat(m))]
        s.check(bool(cand), "wrong-transform", lambda: f"sent {parent}->{child} {mat(m).tolist()}, published {[(x.header.frame_id, ros.tmat(x).tolist()) for x in tr]}")
        x = cand[-1]
        if given:
            s.check(x.header.stamp == stamp, "wrong-stamp", f"published with stamp {x.header.stamp}, given {stamp}")
        else:
            s.check(rec["r0"] <= x.header.stamp.to_nsec() <= rec["r1"], "wrong-stamp", f"published with stamp {x.header.stamp}, now is {rec['r0']}..{rec['r1']}")

    def late_view(seen_end):
        """what a subscriber that joins now learns from the latched broadcast of static transforms"""
        pubs = [p for p in w.pubs if p.name.endswith("static") and p.latched is not None]
        b0 = tick(s)
        view = {}
        for p in pubs:
            for t in copy.deepcopy(p.latched).transforms:
                view[t.child_frame_id] = t
        b1 = tick(s)
        return b0, b1, view

    def check_view(b0, b1, view, quiescent):
        st = [r for r in sends if r["static"]]
        for c in {r["child"] for r in st}:
            mine = [r for r in st if r["child"] == c]
            done = [r for r in mine if r["end"] is not None and r["end"] < b0]
            if not done:
                continue
            # the newest: not followed completely by another finished one
            ok = [r for r in mine if r["begin"] < b1 and not any(o["begin"] > (r["end"] or 1 << 62) and (o["end"] or 1 << 62) < b0 for o in mine)]
            t = view.get(c)
            s.check(t is not None, "static-lost", lambda: f"a subscriber that joins late does not learn the static transform of {c}; it learns {sorted(view)}")
            s.check(any(t.header.frame_id == r["parent"] and same(ros.tmat(t), mat(r["m"])) for r in ok), "static-stale",
                    lambda: f"a subscriber that joins late learns an old or wrong static transform of {c}: {ros.tmat(t).tolist()}, newest {[mat(r['m']).tolist() for r in ok]}")
        for c, t in view.items():
            s.check(any(r["child"] == c for r in st), "static-invented", f"{c} was published as static but never sent as static")
        s.probe("late_subscriber")

    def body(frames):
        for _ in range(1 + s.choose((60 if nthr == 1 else 12) if many else 6)):
            one(frames)
            if s.chance(40) and nthr == 1:
                check_view(*late_view(None), True)
            if s.chance(20):
                s.sleep(s.choose(3) * 10 * MS)
    ths = []
    if nthr == 1:
        body(children)
    else:
        ths = [s.go(body, f, name="sender") for f in ((children[::2], children[1::2]) if s.chance(60) else (children, children[::-1]))]
        if s.chance(50):
            s.sleep(s.choose(3) * 5 * MS)
            check_view(*late_view(None), False)
        s.wait_until(lambda: all(t.done for t in ths), 10_000 * MS)
    check_view(*late_view(None), True)


def c62(s):
    heal = s.pick([0, 200, 600])
    w, net = world(s, heal)
    stop = [False]
    if w.sim_time is not None:
        s.go(clock_thread, s, w, 10 * MS, stop, name="clock")
    s.oversleep = s.pick([0, 0, 10 * MS])
    if s.chance(20):
        w.shutdown_at = s.now + s.choose(24) * 30 * MS
        s.go(w.stopper, name="master")
    plan = []
    tree = s.pick([[("world", "a")], [("world", "a"), ("world", "b")], [("world", "a"), ("a", "b")], [("world", "a"), ("a", "b"), ("b", "c")], [("world", "a"), ("b", "c")]])
    for p, c in tree:
        base = s.choose(6) * 40 * MS
        st = s.chance(20)
        for k in range(1 + s.choose(8)):
            plan.append((base + k * s.pick([5, 30, 60]) * MS, p, c, motion(s), st))
    plan.sort(key=lambda x: x[0])

    def other_node():
        bd, bs = ros.TransformBroadcaster(), ros.StaticTransformBroadcaster()
        t0 = s.now
        for d, p, c, m, st in plan:
            if t0 + d > s.now:
                s.sleep(t0 + d - s.now)
            t = ros.TransformStamped()
            t.header.frame_id, t.child_frame_id = p, c
            t.header.stamp = ros.Time.now()
            t.transform.translation = ros.Vector3(*m[0])
            t.transform.rotation = ros.Quaternion(*m[1])
            (bs if st else bd).sendTransform(t)
    buf = ros.Buffer()
    tfw = TF2Wrapper(buf, ros.TransformListener(buf))
    s.go(other_node, name="other node")
    inject = s.chance(25)

    def lookup_fault(b, target, source):
        if inject and s.chance(40):
            e = s.pick([ros.LookupException, ros.ConnectivityException, ros.ExtrapolationException])("injected")
            s.fault("lookup_fails")
            faults.append((s.cur.id, e))
            w.lookups.append((target, source, None, e, s.now, None))
            return e
    faults = []
    w.lookup_fault = lookup_fault
    s.start_preempting(gap=s.pick([0, 20, 60]), stall_ns=s.pick([0, 0, 20 * MS]))
    frames = ["world"] + [c for _, c in tree]
    watched = []         # what each call under way is waiting for: (target, source, when, [(instant, there)])

    def look(b):
        for t, f, wn, l in watched:
            there = b._lookup(t, f, wn)[1] is None
            if not l or l[-1][1] != there:
                l.append((s.now, there))
    w.watch = look

    def caller():
        for _ in range(1 + s.choose(5)):
            if s.chance(40):
                s.sleep(s.choose(6) * 25 * MS)
            target, frame = s.pick(frames), s.pick(frames)
            form = s.pick([ros.PointStamped, ros.PoseStamped, ros.Vector3Stamped])
            v = [float(s.choose(41) - 20) for _ in range(3)]
            m = (v, quat(s))
            o = form()
            o.header.frame_id = frame
            o.header.seq = s.choose(3)
            k = s.choose(4)
            if k == 1:
                o.header.stamp = ros.Time.now()
            elif k == 2:
                o.header.stamp = ros.Time.from_ns(max(1, w.now_ns() - s.choose(8) * 15 * MS))
            elif k == 3 and net.sent:
                o.header.stamp = copy.deepcopy(s.pick(net.sent)[3].transforms[0].header.stamp)
            if form is ros.PointStamped:
                o.point = ros.Point(*v)
            elif form is ros.Vector3Stamped:
                o.vector = ros.Vector3(*v)
            else:
                o.pose = pose(m)
            keep = copy.deepcopy(o)
            wn = None if o.header.stamp.is_zero() else o.header.stamp.to_nsec()
            timeout = s.pick([0, 0, 60, 200, 500])
            new = ros.KdlFrame if form is ros.PoseStamped and s.chance(30) else form if s.chance(10) else None
            args, kw = [o, target], {}
            to = ros.Duration.from_ns(timeout * MS)
            if s.chance(50):
                if timeout or new or s.chance(50):
                    args.append(to)
                if new or s.chance(30):
                    args += [new] if len(args) == 3 else []
            else:
                if timeout or s.chance(30):
                    kw["timeout"] = to
                if new or s.chance(30):
                    kw["new_type"] = new
                if s.chance(50):
                    kw["object_stamped"], kw["target_frame"] = args
                    args = []
            entry = (target, frame, wn, [])
            watched.append(entry)
            entry[3].append((s.now, buf._lookup(target, frame, wn)[1] is None))
            n0, l0, t0 = len(w.lookups), len(faults), s.now
            s.log("transform", form.__name__, frame, target, wn if wn is None else wn - w.now_ns(), timeout)
            r = err = None
            try:
                r = tfw.transform_to_frame(*args, **kw)
            except (ros.TransformException, ros.ROSInterruptException) as e:
                err = e
            t1 = s.now
            watched.remove(entry)
            s.log("result", type(err or r).__name__)
            s.check(o == keep, "object-changed", lambda: f"the object handed in was changed: {o!r} instead of {keep!r}")
            late = s.lateness(t0) + 8 * w.can_cost + (60 * MS if w.sim_time is not None else 0)
            s.check(t1 - t0 <= timeout * MS + (60 * MS if timeout else 0) + late, "too-long", f"waited {(t1 - t0) / 1e6:.0f} ms with a timeout of {timeout} ms")
            if err is not None:
                if isinstance(err, ros.ROSInterruptException):
                    s.check(w.shutdown, "interrupt", "raised an interrupt while ROS was running")
                    s.probe("interrupted")
                    continue
                s.check(isinstance(err, (ros.LookupException, ros.ConnectivityException, ros.ExtrapolationException)), "raised", f"raised {err!r}")
                if any(e is err for _, e in faults[l0:]):
                    s.probe("library_failure")
                    continue
                s.check(any(not a for _, a in entry[3]), "raised", lambda: f"raised {err!r} although the transform was there all the time")
                s.check(w.shutdown or timeout == 0 or t1 - t0 >= timeout * MS - (60 * MS if w.sim_time is not None else 0) or any(a for _, a in entry[3]), "gave-up-early",
                        lambda: f"raised {err!r} after {(t1 - t0) / 1e6:.0f} ms with a timeout of {timeout} ms")
                if timeout and not w.shutdown and len(entry[3]) == 2 and entry[3][1][1]:
                    # it became available during the wait and stayed: that had to be noticed
                    s.check(entry[3][1][0] >= t1 - 60 * MS - late, "missed", f"raised {err!r} although the transform was there for {(t1 - entry[3][1][0]) / 1e6:.0f} ms")
                s.probe("refused")
                continue
            s.check(any(a for _, a in entry[3]), "out-of-nothing", "returned an object although its transform was never there")
            mine = [x for x in w.lookups[n0:] if x[0] == target and x[1] == frame and x[3] is None and x[5] == wn]
            s.check(bool(mine), "wrong-transform", f"the transform from {frame} to {target} at the object's time was never looked up")
            hdr = r.header
            s.check(type(r) is (new or form), "type", f"returned a {type(r).__name__} for a {form.__name__}, asked for was {new.__name__ if new else 'the same'}")
            s.check(hdr.frame_id == target, "frame", f"the result is in frame {hdr.frame_id!r} instead of {target!r}")
            s.check(wn is None or hdr.stamp.to_nsec() == wn, "stamp", "the result has another time stamp than the object")

            def fits(x):
                if form is ros.PointStamped:
                    e = x @ np.array(v + [1.0])
                    return same([r.point.x, r.point.y, r.point.z], e[:3])
                if form is ros.Vector3Stamped:
                    return same([r.vector.x, r.vector.y, r.vector.z], x[:3, :3] @ np.array(v))
                return same(r.m if new is ros.KdlFrame else ros.numpify(r.pose), x @ mat(m))
            s.check(any(fits(x[2]) for x in mine), "wrong-transform", lambda: f"{keep!r} became {r!r} in {target}, the transform is {[x[2].tolist() for x in mine][-1:]}")
            s.probe("transformed")
            if t1 - t0 > 20 * MS:
                s.probe("waited")
    ths = [s.go(caller, name="caller") for _ in range(1 + s.chance(40))]
    s.wait_until(lambda: all(t.done for t in ths), 20_000 * MS)
    s.check(all(t.done for t in ths), "stuck", "a call did not end")


SCENARIOS = {"C23": c23, "C24": c24, "C25": c25_all, "C26": c26, "C62": c62}
