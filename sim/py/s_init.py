"""C29, C30, C35: nodes opened and closed, publishers that connect, and guarded calls, with errors and interrupts at any point."""
import sys

import simcore
simcore.install()
import ros_stub as ros  # noqa: E402
ros.install()
import time  # noqa: E402
from arc_utilities import conditional_try as ct, ros_helpers, ros_init  # noqa: E402

MS = 1_000_000


class Own(Exception):
    pass


class OwnInterrupt(BaseException):
    pass


def error(s, ordinary=None):
    o = [Own("injected"), ValueError("injected"), MemoryError("injected"), OSError(5, "injected"), StopIteration("injected"), RecursionError("injected"),
         AssertionError("injected"), KeyError("injected"), TimeoutError("injected"), ExceptionGroup("injected", [ValueError("x")]), UnicodeDecodeError("utf8", b"x", 0, 1, "injected"), NotImplementedError()]
    i = [KeyboardInterrupt("injected"), SystemExit(3), GeneratorExit("injected"), OwnInterrupt("injected"), BaseExceptionGroup("injected", [KeyboardInterrupt("x")]), SystemExit(0)]
    if ordinary is None:
        ordinary = s.chance(50)
    return s.pick(o if ordinary else i)


class Strike:
    """raises an exception at the n-th instruction of the user's code"""

    def __init__(self, s, n, err):
        self.s, self.n, self.err = s, n, err
        self.struck = False
        s.on_point = self

    def __call__(self, frame, event):
        if event == "call" or frame.f_code.co_filename != "<simuser>":
            return
        self.n -= 1
        if self.n == 0:
            self.struck = True
            self.s.fault("error_inside" if isinstance(self.err, Exception) else "interrupt_inside")
            self.s.log("strike", type(self.err).__name__)
            self.s.sh.update(f"{frame.f_code.co_name} {frame.f_lasti}".encode())
            raise self.err


USER = '''
def body(rec, x, *more, key=None):
    rec.enter(x, more, key)
    t = 0
    for i in range(3):
        t = helper(t, i)
        rec.step(t)
    try:
        rec.step("inside")
        t += 1
    finally:
        rec.step("tidy")
    rec.end()
    if rec.fail is not None:
        raise rec.fail
    return rec.value


def helper(a, b):
    l = [a, b]
    return sum(l) + len(l)


def guarded(rec, a=None, b=2, s="", value=None, function2=None):
    rec.enter(a, b, s)
    x = 0
    for i in range(2):
        x = helper(x, i)
        rec.step(x)
    with rec:
        rec.step("with")
    try:
        rec.step([n for n in (1, 2)])
        if rec.inner:
            raise ValueError("handled")
    except ValueError:
        rec.step("handled")
    rec.end()
    if rec.fail is not None:
        raise rec.fail
    return rec.value
'''
U = {"__name__": "user"}
exec(compile(USER, "<simuser>", "exec"), U)


class Rec:
    def __init__(self, s):
        self.s = s
        self.enters = []
        self.steps = []
        self.ended = 0
        self.fail = None
        self.value = None
        self.inner = False
        self.on_enter = None

    def enter(self, *a):
        self.enters.append(a)
        if self.on_enter:
            self.on_enter()

    def step(self, x):
        self.s.yield_point()
        self.steps.append(x)
        if self.on_enter:
            self.on_enter()

    def end(self):
        self.ended += 1

    def __enter__(self):
        self.steps.append("enter")

    def __exit__(self, *a):
        self.steps.append(("exit", a[0] is not None))


NAMES = ["cpp.init_node", "rospy.init_node", "rospy.signal_shutdown", "cpp.shutdown"]


def c29(s):
    w = ros.new_world(s)
    uses = 1 + s.chance(25)
    for _ in range(uses):
        name = s.pick(["n", "my_node", "a/b", "cpp_x", ""])
        ev = []                 # what took effect, in order
        called = []
        at = s.choose(9)        # which call into ROS fails, before or after it took effect
        after = s.chance(50)
        err = error(s) if at < 4 and s.chance(60) else None
        strike_err = error(s) if s.chance(60) else None
        up = {"cpp": 0, "py": 0}
        down = {"cpp": 0, "py": 0}

        def hook(h, arg, args, kw):
            i = NAMES.index(h)
            called.append((h, arg, args, kw))
            hit = err is not None and i == at and sum(1 for c in called if c[0] == h) == 1
            if hit and not after:
                s.fault("ros_call_fails")
                s.log(h, "fails")
                raise err
            which = "cpp" if h.startswith("cpp") else "py"
            if "init" in h:
                up[which] += 1
                ev.append(("init", which, arg))
            else:
                down[which] += 1
                ev.append(("shutdown", which))
            s.log(h, arg)
            if hit:
                s.fault("ros_call_interrupted")
                s.log(h, "fails after taking effect")
                raise err
        w.hooks = [hook]
        w.shutdown = False
        rec = Rec(s)
        rec.value = s.pick([None, 0, [1], "x", (None, True), Own("value")])
        if s.chance(20):
            rec.fail = error(s)

        def state():
            s.check(up == {"cpp": 1, "py": 1}, "not-initialised", f"the code runs although the nodes are initialised {up}")
            s.check(down == {"cpp": 0, "py": 0}, "shut-down-early", "the code runs although a node was shut down")
            names = {e[1]: e[2] for e in ev if e[0] == "init"}
            s.check(names == {"cpp": "cpp_" + name, "py": name}, "names", f"nodes named {names} for {name!r}")
        rec.on_enter = state
        form = s.pick(["decorator", "decorator", "context"])
        args, kw = (rec, 5), {}
        if s.chance(50):
            args, kw = (rec, [1], "more", None), {"key": s.pick([None, {"name": 1}, 7])}
        elif s.chance(30):
            args, kw = (rec,), {"x": 9}
        st = Strike(s, 1 + s.choose(110), strike_err) if strike_err is not None else None
        sys.settrace(simcore.tracer)
        out = exc = None
        s.log("run", form, repr(name), "strike" if st else "")
        try:
            if form == "decorator":
                f = ros_init.with_ros(name)(U["body"]) if s.chance(50) else ros_init.with_ros(name=name)(U["body"])
                s.check(not called, "eager", "ROS was initialised before the function was called")
                out = f(*args, **kw)
            else:
                out = context(name, args, kw)
        except BaseException as e:
            if isinstance(e, (simcore.SimExit, simcore.MachineryError)):
                raise
            exc = e
        s.on_point = None
        sys.settrace(None)
        s.log("out", repr(out), type(exc).__name__, up, down)
        # every node that was started is shut down exactly once, after the code
        hit_shutdown = err is not None and at >= 2 and any(c[0] == NAMES[at] for c in called)
        hit_init = err is not None and at < 2
        for n in ("cpp", "py"):
            if up[n]:
                tries = sum(1 for c in called if c[0] == ("cpp.shutdown" if n == "cpp" else "rospy.signal_shutdown"))
                s.check(tries >= 1, "left-running", f"the {n} node was initialised and never shut down")
                s.check(tries == 1, "shut-down-twice", f"the {n} node was shut down {tries} times")
            s.check(up[n] <= 1, "initialised-twice", f"the {n} node was initialised twice")
        order = [e[0] for e in ev]
        s.check(order == sorted(order), "order", f"{ev}")
        fn = NAMES[at] if err is not None else None
        inited = not hit_init
        if not inited:
            s.check(not rec.enters, "ran-anyway", "the code ran although initialisation failed")
            s.check(exc is err, "lost-error", f"initialisation failed with {err!r}, the caller saw {exc!r}")
            s.probe("init_failed")
            continue
        s.check(len(rec.enters) == 1 or st is not None and st.struck and not rec.enters, "runs", f"the code ran {len(rec.enters)} times")
        if rec.enters:
            x, more, key = rec.enters[0]
            s.check((x, more, key) == (kw.get("x", args[1] if len(args) > 1 else None), args[2:], kw.get("key")), "arguments", f"the code got {rec.enters[0]}")
        if hit_shutdown:
            s.check(exc is err, "lost-error", f"shutting down failed with {err!r}, the caller saw {exc!r}")
            s.probe("shutdown_failed")
        elif st is not None and st.struck:
            s.check(exc is strike_err, "lost-error", f"the code was struck by {strike_err!r}, the caller saw {exc!r}")
            s.probe("struck")
        elif rec.fail is not None:
            s.check(exc is rec.fail, "lost-error", f"the code raised {rec.fail!r}, the caller saw {exc!r}")
            s.probe("raised")
        else:
            s.check(exc is None and out is rec.value, "result", f"the code returned {rec.value!r}, the caller got {out!r} {exc!r}")
            s.probe("returned")


def context(name, args, kw):
    with ros_init.RosContext(name):
        return U["body"](*args, **kw)


# ------------------------------------------------------------------ C30
class Graph:
    """the master's view and the true connections of every publisher"""

    def __init__(self, s, w):
        self.s, self.w = s, w
        self.subs = {}          # topic -> set of listed subscriber nodes
        self.conns = {}         # topic -> number of connections
        self.reads = []         # (time, "subs" or "conns", topic, number)
        self.changes = []       # (time, topic)
        self.master_fails = 0
        self.history = {}
        self.cost = 0
        w.master = self

    def connections(self, pub):
        n = self.conns.get(pub.name, 0)
        self.reads.append((self.s.now, "conns", pub.name, n))
        self.s.log("connections", pub.name, n)
        self.s.sh.update(b"read;")
        return n

    def system_state(self):
        s = self.s
        if self.cost:
            s.sleep(s.choose(4) * self.cost // 3)
        if self.master_fails and s.chance(self.master_fails):
            s.fault("master_fails")
            raise ConnectionRefusedError("master")
        self.reads.append((s.now, "subs", None, {t: len(v) for t, v in self.subs.items()}))
        s.log("system state", {t: sorted(v) for t, v in self.subs.items()})
        subs = [[t, sorted(v)] for t, v in sorted(self.subs.items()) if v]
        pubs = [[p.name, [self.w.node]] for p in self.w.pubs] + [["/rosout", [self.w.node]]]
        return [pubs, subs, [["/" + "srv", [self.w.node]]]]

    def play(self, plan):
        s = self.s
        t0 = s.now
        for at, what, topic, node in plan:
            if t0 + at > s.now:
                s.sleep(t0 + at - s.now)
            lis, con = self.history.setdefault(topic, ([], []))
            if what == "appear":
                self.subs.setdefault(topic, set()).add(node)
                lis.append((s.now, len(self.subs[topic])))
            elif what == "leave":
                self.subs.setdefault(topic, set()).discard(node)
                lis.append((s.now, len(self.subs[topic])))
            else:
                self.conns[topic] = max(0, self.conns.get(topic, 0) + (1 if what == "connect" else -1))
                con.append((s.now, self.conns[topic]))
            s.log(what, topic, node)
            s.sh.update(f"{what} {topic};".encode())
            s.fault("subscriber_" + what)
            self.changes.append((s.now, topic))


def make_plan(s, topics, horizon):
    plan = []
    for t in topics:
        for k in range(s.pick([0, 1, 1, 2, 3])):
            node = f"/sub{k}"
            a = s.pick([0, 0, s.choose(30) * 10 * MS])
            c = a + s.pick([0, 0, 20, 60, 120, 190, 230, 900]) * MS + s.choose(10) * MS
            plan.append((a, "appear", t, node))
            if not s.chance(10):
                plan.append((c, "connect", t, node))
                if s.chance(15):
                    d = c + s.choose(20) * 10 * MS
                    plan.append((d, "leave", t, node))
                    plan.append((d + s.pick([0, 0, 15, 60]) * MS, "disconnect", t, node))
    plan.sort(key=lambda x: x[0])
    return plan


TOPICS = ["/a", "/ab", "/ns/c", "rel", "~priv", "remapped"]


def c30(s):
    w = ros.new_world(s)
    w.node = s.pick(["/node", "/robot/node"])
    w.namespace = s.pick(["/", "/robot/"])
    w.remap = {w.namespace + "remapped": "/elsewhere"}
    g = Graph(s, w)
    g.cost = s.pick([0, 0, 3, 30]) * MS
    g.master_fails = s.pick([0, 0, 0, 20])
    topics = [TOPICS[s.choose(len(TOPICS))] for _ in range(1 + s.choose(3))]
    topics = list(dict.fromkeys(topics))
    names = [w.resolve(t) for t in topics]
    others = ["/other"] if s.chance(30) else []
    plan = make_plan(s, names + others, 400)
    # some of it has happened before the call
    early = s.choose(300) * MS if s.chance(60) else 0
    s.go(g.play, plan, name="graph")
    if early:
        s.sleep(early)
    s.oversleep = s.pick([0, 0, 20 * MS])
    s.start_preempting(gap=s.pick([0, 20, 60]), stall_ns=s.pick([0, 0, 40 * MS]))
    if s.chance(50):
        publisher(s, w, g, topics[0])
    else:
        connect(s, w, g, topics)


def publisher(s, w, g, topic):
    name = w.resolve(topic)
    kw = s.pick([{}, {"queue_size": 10}, {"latch": True, "queue_size": 1}])
    n0 = len(g.reads)
    t0 = s.now
    pub = err = None
    try:
        pub = ros_helpers.get_connected_publisher(topic, ros.String, **kw)
    except Exception as e:
        err = e
    t1 = s.now
    reads = g.reads[n0:]
    s.log("returned", type(err).__name__ if err else "publisher")
    late = s.lateness(t0 - 100 * MS)
    s.check(t1 - t0 <= 350 * MS + late + 8 * g.cost, "slow", f"took {(t1 - t0) / 1e6:.0f} ms")
    s.check(len([r for r in reads if r[1] == "conns"]) <= 12, "checks", f"{len(reads)} checks")
    if isinstance(err, ConnectionRefusedError):
        s.check("master_fails" in s.faults, "error", "an error out of nothing")
        s.probe("master_failed")
        return
    # within the last check, from the last read of the one kind to the last of the other
    cn = [r for r in reads if r[1] == "conns" and r[2] == name]
    sb = [r for r in reads if r[1] == "subs"]
    if err is None:
        s.check(isinstance(pub, ros.Publisher) and pub.name == name and pub.data_class is ros.String and pub.open, "publisher", "not the publisher asked for")
        s.check(pub.latch == kw.get("latch", False) and pub.queue_size == kw.get("queue_size"), "arguments", "the publisher was created with other arguments")
        lo = min(cn[-1][0] if cn else t0, sb[-1][0] if sb else t0)
        lo = max(t0, lo - s.lateness(lo - 60 * MS) - 2 * MS)
        # was there a moment in the last check at which what was listed was connected?  the two numbers are read one after the other
        listed, conns = span(s, g, name, lo, t1)
        s.check(max(conns) >= min(listed), "unconnected",
                f"returned a publisher with at most {max(conns)} connections; the master lists at least {min(listed)} subscribers of {name} throughout the last check")
        s.probe("connected")
    else:
        s.check(isinstance(err, RuntimeError) and topic in str(err), "error", f"raised {err!r}")
        s.check(t1 - t0 >= 180 * MS, "gave-up-early", f"gave up after {(t1 - t0) / 1e6:.0f} ms already")
        s.probe("gave_up")
    # established in time: from then on nothing changes and the numbers agree
    before = [c for c in g.changes if c[1] == name and c[0] <= t1]
    since = max([c[0] for c in before], default=t0 - 1)
    lastn = len(g.subs.get(name, ()))
    if since < t0 + 190 * MS - 4 * MS and len(g.subs.get(name, ())) == g.conns.get(name, 0):
        s.check(err is None, "gave-up-early", f"raised although all {lastn} subscribers of {name} were connected from {(since - t0) / 1e6:.0f} ms on (gave up after {(t1 - t0) / 1e6:.0f} ms)")


def span(s, g, name, lo, hi):
    """every number of listed subscribers and of connections of the topic between two instants"""
    lis, con = g.history.get(name, ([], []))
    f = lambda h: [v for (t, v), nxt in zip(h, h[1:] + [(hi + 1, None)]) if nxt[0] >= lo and t <= hi]    # noqa
    return f([(0, 0)] + lis), f([(0, 0)] + con)


def connect(s, w, g, topics):
    pubs = [ros.Publisher(t, ros.String, queue_size=1) for t in topics]
    if s.chance(5):
        pubs = []
    kw = {} if s.chance(40) else {"raise_on_fail": s.chance(50)}
    n0, l0, t0 = len(g.reads), len(w.logs), s.now
    err = r = None
    try:
        r = ros_helpers.try_to_connect(*pubs, **kw)
    except Exception as e:
        err = e
    t1 = s.now
    reads = g.reads[n0:]
    warns = [l for l in w.logs[l0:] if l[0] in ("warn", "err", "fatal", "info")]
    s.log("returned", type(err).__name__, len(warns))
    late = s.lateness(t0 - 100 * MS)
    s.check(t1 - t0 <= 350 * MS + late, "slow", f"took {(t1 - t0) / 1e6:.0f} ms")
    s.check(len(reads) <= 12 * max(1, len(pubs)), "checks", f"{len(reads)} checks")
    s.check(err is None or isinstance(err, RuntimeError) and kw.get("raise_on_fail"), "error", f"raised {err!r}")
    failed = err is not None or bool(warns)
    if failed:
        s.check(bool(warns) != (err is not None), "answer", "both raised and warned")
        s.check(bool(warns) == (not kw.get("raise_on_fail")), "answer", "warned although asked to raise" if warns else "raised although not asked to")
        msg = str(err) if err is not None else warns[-1][1]
        s.check(len(warns) <= 1, "answer", "warned several times")
        words = msg.replace(",", " ").replace("'", " ").split()
        named = {p.name for p in pubs if p.name in words}
        s.check(bool(named), "names", f"names nobody: {msg}")
        s.check(t1 - t0 >= 180 * MS, "gave-up-early", f"gave up after {(t1 - t0) / 1e6:.0f} ms already")
    else:
        named = set()
    lo = max(t0, t1 - 4 * MS - s.lateness(t1 - 60 * MS))
    for p in pubs:
        last = [x for x in reads if x[2] == p.name]
        s.check(bool(last), "unchecked", f"{p.name} was never checked")
        conns = span(s, g, p.name, lo if failed else max(t0, lo - 60 * MS), t1)[1]
        if p.name in named:
            s.check(min(conns) == 0, "names", f"{p.name} is named as unconnected, but was connected")
        else:
            s.check(max(conns) > 0, "unconnected", f"{p.name} has no subscriber and is not named")
    before = [c for c in g.changes if c[1] in [p.name for p in pubs] and c[0] <= t1]
    since = max([c[0] for c in before], default=t0 - 1)
    if since < t0 + 190 * MS and all(g.conns.get(p.name, 0) > 0 for p in pubs):
        s.check(not failed, "gave-up-early", f"failed although all were connected from {(since - t0) / 1e6:.0f} ms on (gave up after {(t1 - t0) / 1e6:.0f} ms)")
    s.probe("failed" if failed else "connected")


# ------------------------------------------------------------------ C35
def c35(s):
    for _ in range(1 + s.choose(3)):
        catch = s.pick([True, True, False, 1, 0])
        err = error(s) if s.chance(75) else None
        at = 1 + s.choose(120)
        fail = error(s) if s.chance(25) else None
        value = s.pick([None, 7, [1], Own("value"), False])
        subst = s.pick([None, 5, "x", Own("substitute"), False])
        args = s.pick([{}, {"a": 1}, {"s": "t", "b": None}, {"a": [], "function2": 3, "value": 4}])
        inner = s.chance(30)

        def run(call):
            rec = Rec(s)
            rec.fail, rec.value, rec.inner = fail, value, inner
            st = Strike(s, at, err) if err is not None else None
            sys.settrace(simcore.tracer)
            out = exc = None
            try:
                out = call(rec)
            except BaseException as e:
                if isinstance(e, (simcore.SimExit, simcore.MachineryError)):
                    raise
                exc = e
            s.on_point = None
            sys.settrace(None)
            return rec, out, exc, st is not None and st.struck
        # the function by itself is the reference
        f = U["guarded"]
        ref, rout, rexc, _ = run(lambda rec: f(rec=rec, **args))
        form = s.choose(3)
        if form == 0:
            kw = {} if subst is None and s.chance(50) else {"value_on_exception": subst}
            call = lambda rec: ct.conditional_try(catch, f, rec=rec, **kw, **args)                                        # noqa
        elif form == 1:
            call = lambda rec: ct.conditional_try(catch, f, subst, rec=rec, **args)                                       # noqa
        else:
            call = lambda rec: ct.conditional_try(should_catch=catch, function=f, value_on_exception=subst, rec=rec, **args)  # noqa
        s.log("call", catch, type(rexc).__name__, form)
        rec, out, exc, struck = run(call)
        s.check(rec.enters == ref.enters and len(rec.enters) <= 1, "runs", f"the function ran as {rec.enters}, alone it ran as {ref.enters}")
        s.check(rec.steps == ref.steps and rec.ended == ref.ended, "altered", f"the function went through {rec.steps}, alone through {ref.steps}")
        if rexc is None:
            s.check(exc is None and out is value, "result", f"the function returns {value!r}, the guarded call gave {out!r} {exc!r}")
            s.probe("returned")
        elif catch and isinstance(rexc, Exception):
            s.check(exc is None and out is subst, "substitute", f"the function raised {rexc!r}, the guarded call gave {out!r} {exc!r} instead of {subst!r}")
            s.probe("substituted")
        else:
            s.check(exc is rexc, "propagation", f"the function raised {rexc!r}, the guarded call gave {out!r} {exc!r}")
            s.probe("propagated")


SCENARIOS = {"C29": c29, "C30": c30, "C35": c35}
