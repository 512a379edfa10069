"""Stand-ins for rospy, rosgraph, tf2_ros, tf, ros_numpy and the message packages, driven by the simulator. Modelled on the
ROS noetic sources: connection threads that swallow callback exceptions, latching by reference, wall or simulated ROS time,
Rate and sleep including their exceptions, tf buffers per listener with latest-time look-ups."""
import copy, math, sys, types

import numpy as np

import simcore
from simcore import Sim  # noqa

W = None  # the World of this run


def S():
    return simcore.S


class Sub:
    pass


class World:
    """all ROS state of one run"""

    def __init__(self, s):
        self.s = s
        self.shutdown = False
        self.shutdown_t = None
        self.shutdown_at = None
        self.sim_time = None          # ROS clock in ns when /use_sim_time, else wall clock
        self.jump = 0                 # wall clock jumps
        self.subs = []
        self.pubs = []
        self.logs = []
        self.calls = []
        self.bad_callbacks = []
        self.on_subscribe = None
        self.on_publish = None
        self.on_log = None
        self.throttle = {}
        self.master = None
        self.hooks = []
        self.must_init = False          # the code under test has to call rospy.init_node itself
        self.initialised = False
        self.can_cost = 200_000
        self.buffers = []
        self.time_waiters = []
        self.inits = []
        self.reasons = []
        self.node = "/node"           # the node's name and namespace, and the names remapped on its command line
        self.namespace = "/"
        self.remap = {}

    def resolve(self, name):
        """the global name the node uses for a topic"""
        if name.startswith("~"):
            name = self.node + "/" + name[1:]
        elif not name.startswith("/"):
            name = self.namespace + name
        return self.remap.get(name, name)

    def stop(self):
        """ROS shuts down now (master, signal or another thread)"""
        if not self.shutdown:
            self.shutdown = True
            self.shutdown_t = self.s.now
            self.s.fault("ros_shutdown")

    def stopper(self):
        """thread body: shut ROS down at shutdown_at"""
        if self.shutdown_at > self.s.now:
            self.s.sleep(self.shutdown_at - self.s.now)
        self.stop()

    def now_ns(self):
        if self.sim_time is not None:
            return self.sim_time
        return self.s.now + self.s.wall_off + self.jump


def new_world(s):
    global W
    W = World(s)
    return W


# ------------------------------------------------------------------ time
class TVal:
    __slots__ = ("secs", "nsecs")

    def __init__(self, secs=0, nsecs=0):
        if isinstance(secs, float) or isinstance(nsecs, float):
            f = math.floor(secs)
            nsecs = int((secs - f) * 1e9 + nsecs)
            secs = int(f)
        secs += nsecs // 1_000_000_000
        nsecs %= 1_000_000_000
        self.secs, self.nsecs = int(secs), int(nsecs)

    def to_nsec(self):
        return self.secs * 1_000_000_000 + self.nsecs

    def to_sec(self):
        return self.secs + self.nsecs / 1e9

    def is_zero(self):
        return self.secs == 0 and self.nsecs == 0

    @classmethod
    def from_sec(cls, f):
        return cls(float(f))

    @classmethod
    def from_ns(cls, n):
        r = cls()
        r.secs, r.nsecs = divmod(int(n), 1_000_000_000)
        return r

    def __hash__(self):
        return hash((type(self), self.to_nsec()))

    def __bool__(self):
        return not self.is_zero()

    def _cmp(self, o):
        if not isinstance(o, type(self)) and not isinstance(self, type(o)):
            raise TypeError(f"cannot compare {type(self).__name__} to {type(o).__name__}")
        return self.to_nsec() - o.to_nsec()

    def __lt__(self, o): return self._cmp(o) < 0
    def __le__(self, o): return self._cmp(o) <= 0
    def __gt__(self, o): return self._cmp(o) > 0
    def __ge__(self, o): return self._cmp(o) >= 0

    def __eq__(self, o):
        return isinstance(o, TVal) and isinstance(o, Duration) == isinstance(self, Duration) and self.to_nsec() == o.to_nsec()

    def __repr__(self):
        return f"{type(self).__name__}[{self.to_nsec()}]"

    def __deepcopy__(self, memo):
        return type(self).from_ns(self.to_nsec())


class Duration(TVal):
    __slots__ = ()

    def __add__(self, o):
        if isinstance(o, Time):
            return o + self
        return Duration.from_ns(self.to_nsec() + o.to_nsec())

    def __sub__(self, o):
        return Duration.from_ns(self.to_nsec() - o.to_nsec())

    def __neg__(self):
        return Duration.from_ns(-self.to_nsec())

    def __mul__(self, f):
        return Duration.from_ns(round(self.to_nsec() * f))

    __rmul__ = __mul__

    def __truediv__(self, f):
        return self.to_nsec() / f.to_nsec() if isinstance(f, Duration) else Duration.from_ns(round(self.to_nsec() / f))


class Time(TVal):
    __slots__ = ()

    @staticmethod
    def now():
        s = S()
        s.yield_point()
        return Time.from_ns(W.now_ns())

    def __add__(self, o):
        if not isinstance(o, Duration):
            raise TypeError("Time + non-duration")
        return Time.from_ns(self.to_nsec() + o.to_nsec())

    def __sub__(self, o):
        if isinstance(o, Duration):
            return Time.from_ns(self.to_nsec() - o.to_nsec())
        return Duration.from_ns(self.to_nsec() - o.to_nsec())


class ROSException(Exception):
    pass


class ROSInterruptException(ROSException, KeyboardInterrupt):
    pass


class ROSInitException(ROSException):
    pass


class ROSTimeMovedBackwardsException(ROSInterruptException):
    def __init__(self, t):
        self.time = t
        super().__init__("ROS time moved backwards")


def ros_sleep(duration):
    s = S()
    if not isinstance(duration, Duration):
        duration = Duration.from_sec(duration)
    if W.sim_time is None:
        if duration.to_nsec() < 0:
            return
        simcore.sim_sleep(duration.to_nsec() / 1e9)
        return
    first = W.sim_time
    end = first + duration.to_nsec()
    while first <= W.sim_time < end and not W.shutdown:
        simcore.sim_sleep(0.02)
    if W.sim_time < first:
        raise ROSTimeMovedBackwardsException((first - W.sim_time) / 1e9)
    if W.shutdown:
        raise ROSInterruptException("ROS shutdown request")


class Rate:
    def __init__(self, hz, reset=False):
        self.last_time = Time.now()
        self.sleep_dur = Duration.from_ns(int(1e9 / hz))
        self._reset = reset

    def _remaining(self, curr):
        if self.last_time > curr:
            self.last_time = curr
        return self.sleep_dur - (curr - self.last_time)

    def remaining(self):
        return self._remaining(Time.now())

    def sleep(self):
        curr = Time.now()
        try:
            ros_sleep(self._remaining(curr))
        except ROSTimeMovedBackwardsException:
            if not self._reset:
                raise
            self.last_time = Time.now()
            return
        self.last_time = self.last_time + self.sleep_dur
        if curr - self.last_time > self.sleep_dur * 2:
            self.last_time = curr


# ------------------------------------------------------------------ node
def is_shutdown():
    s = S()
    s.yield_point()
    if W.shutdown_at is not None and s.now >= W.shutdown_at and not W.shutdown:
        W.stop()
    return W.shutdown


def init_node(name, *a, **kw):
    S().yield_point()
    for h in W.hooks:
        h("rospy.init_node", name, a, kw)
    W.initialised = True


def signal_shutdown(reason):
    S().yield_point()
    for h in W.hooks:
        h("rospy.signal_shutdown", reason, (), {})
    W.stop()


def spin():
    """rospy.spin: until shutdown, looked at twice per second"""
    if W.must_init and not W.initialised:
        raise ROSInitException("client code must call rospy.init_node() first")
    while not W.shutdown:
        S().sleep(500_000_000)


def _log(level):
    def f(msg, *args, **kw):
        s = S()
        s.yield_point()
        text = str(msg) % args if args else str(msg)
        W.logs.append((level, text, s.now, W.now_ns()))
        s.log(level, text)
        if W.on_log:
            W.on_log(level, text)
    return f


def _throttled(level):
    plain = _log(level)

    def f(period, msg, *args, **kw):
        # rospy keys throttling by caller; the stand-in keys by caller's code line
        fr = sys._getframe(1)
        key = (fr.f_code.co_filename, fr.f_lineno, level)
        now = W.now_ns()
        last = W.throttle.get(key)
        W.calls.append((level + "_throttle", period, S().now, now, threading_id()))
        if last is None or now - last >= period * 1e9 or now < last:
            W.throttle[key] = now
            plain(msg, *args)
    return f


def threading_id():
    return S().cur.id


class Subscriber:
    def __init__(self, name, data_class, callback=None, callback_args=None, queue_size=None, buff_size=65536, tcp_nodelay=False):
        self.name = self.resolved_name = name
        self.data_class, self.cb, self.cb_args, self.queue_size = data_class, callback, callback_args, queue_size
        self.alive = True
        S().yield_point()
        W.subs.append(self)
        S().log("subscribe", name)
        if W.on_subscribe:
            W.on_subscribe(self)
        S().yield_point()

    @property
    def callback(self):
        return self.cb

    def get_num_connections(self):
        return 1

    def unregister(self):
        self.alive = False

    def deliver(self, msg):
        """what a connection thread does with one message"""
        if not self.alive or self.cb is None:
            return
        try:
            if self.cb_args is not None:
                self.cb(msg, self.cb_args)
            else:
                self.cb(msg)
        except simcore.SimExit:
            raise
        except Exception as e:
            S().log("bad callback", type(e).__name__, e)
            W.bad_callbacks.append(e)


class Publisher:
    def __init__(self, name, data_class, subscriber_listener=None, tcp_nodelay=False, latch=False, headers=None, queue_size=None):
        S().yield_point()
        self.name = self.resolved_name = W.resolve(name)
        self.given_name = name
        self.data_class, self.latch, self.latched, self.queue_size = data_class, latch, None, queue_size
        self.open = True
        W.pubs.append(self)
        S().log("advertise", name)

    def get_num_connections(self):
        S().yield_point()
        if W.master is not None:
            return W.master.connections(self)
        return 0

    def publish(self, *args, **kw):
        S().yield_point()
        msg = args[0] if len(args) == 1 else self.data_class(*args, **kw)
        if self.latch:
            self.latched = msg
        if W.on_publish:
            W.on_publish(self, msg)

    def unregister(self):
        self.open = False


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    if "." in name:
        p, c = name.rsplit(".", 1)
        if p in sys.modules:
            setattr(sys.modules[p], c, m)
    return m


# ------------------------------------------------------------------ messages
class Msg:
    _f = {}

    def __init__(self, *args, **kw):
        names = list(self._f)
        for n, d in self._f.items():
            setattr(self, n, d() if callable(d) else copy.deepcopy(d))
        if args:
            if len(args) != len(names):
                raise TypeError("Invalid number of arguments")
            for n, v in zip(names, args):
                setattr(self, n, v)
        for n, v in kw.items():
            if n not in self._f:
                raise AttributeError(f"{n} is not an attribute of {type(self).__name__}")
            setattr(self, n, v)

    def __eq__(self, o):
        return type(self) is type(o) and all(getattr(self, n) == getattr(o, n) for n in self._f)

    __hash__ = None

    def __repr__(self):
        return type(self).__name__ + "(" + ",".join(repr(getattr(self, n)) for n in self._f) + ")"


def msgtype(name, **f):
    return type(name, (Msg,), {"_f": f, "__slots__": tuple(f) if False else ()} if False else {"_f": f})


Header = msgtype("Header", seq=0, stamp=Time, frame_id="")
Point = msgtype("Point", x=0.0, y=0.0, z=0.0)
Vector3 = msgtype("Vector3", x=0.0, y=0.0, z=0.0)
Quaternion = msgtype("Quaternion", x=0.0, y=0.0, z=0.0, w=0.0)
Pose = msgtype("Pose", position=Point, orientation=Quaternion)
Transform = msgtype("Transform", translation=Vector3, rotation=Quaternion)
PoseStamped = msgtype("PoseStamped", header=Header, pose=Pose)
PointStamped = msgtype("PointStamped", header=Header, point=Point)
Vector3Stamped = msgtype("Vector3Stamped", header=Header, vector=Vector3)
TransformStamped = msgtype("TransformStamped", header=Header, child_frame_id="", transform=Transform)
TFMessage = msgtype("TFMessage", transforms=list)
Joy = msgtype("Joy", header=Header, axes=list, buttons=list)
String = msgtype("String", data="")
Float64 = msgtype("Float64", data=0.0)
Marker = msgtype("Marker", header=Header, scale=Vector3)
MarkerArray = msgtype("MarkerArray", markers=list)


# ------------------------------------------------------------------ tf.transformations (the functions used)
def quaternion_matrix(q):
    q = np.array(q[:4], dtype=np.float64, copy=True)
    nq = np.dot(q, q)
    if nq < np.finfo(float).eps * 4.0:
        return np.identity(4)
    q *= math.sqrt(2.0 / nq)
    q = np.outer(q, q)
    return np.array((
        (1.0 - q[1, 1] - q[2, 2], q[0, 1] - q[2, 3], q[0, 2] + q[1, 3], 0.0),
        (q[0, 1] + q[2, 3], 1.0 - q[0, 0] - q[2, 2], q[1, 2] - q[0, 3], 0.0),
        (q[0, 2] - q[1, 3], q[1, 2] + q[0, 3], 1.0 - q[0, 0] - q[1, 1], 0.0),
        (0.0, 0.0, 0.0, 1.0)), dtype=np.float64)


def quaternion_from_matrix(matrix):
    q = np.empty((4,), dtype=np.float64)
    M = np.array(matrix, dtype=np.float64, copy=False)[:4, :4]
    t = np.trace(M)
    if t > M[3, 3]:
        q[3] = t
        q[2] = M[1, 0] - M[0, 1]
        q[1] = M[0, 2] - M[2, 0]
        q[0] = M[2, 1] - M[1, 2]
    else:
        i, j, k = 0, 1, 2
        if M[1, 1] > M[0, 0]:
            i, j, k = 1, 2, 0
        if M[2, 2] > M[i, i]:
            i, j, k = 2, 0, 1
        t = M[i, i] - (M[j, j] + M[k, k]) + M[3, 3]
        q[i] = t
        q[j] = M[i, j] + M[j, i]
        q[k] = M[k, i] + M[i, k]
        q[3] = M[k, j] - M[j, k]
    q *= 0.5 / math.sqrt(t * M[3, 3])
    return q


def quaternion_from_euler(ai, aj, ak, axes="sxyz"):
    ci, si, cj, sj, ck, sk = math.cos(ai / 2), math.sin(ai / 2), math.cos(aj / 2), math.sin(aj / 2), math.cos(ak / 2), math.sin(ak / 2)
    return np.array([si * cj * ck - ci * sj * sk, ci * sj * ck + si * cj * sk, ci * cj * sk - si * sj * ck, ci * cj * ck + si * sj * sk])


def numpify(m, *a, **k):
    if isinstance(m, Pose):
        r = quaternion_matrix([m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w])
        r[:3, 3] = [m.position.x, m.position.y, m.position.z]
        return r
    if isinstance(m, Transform):
        r = quaternion_matrix([m.rotation.x, m.rotation.y, m.rotation.z, m.rotation.w])
        r[:3, 3] = [m.translation.x, m.translation.y, m.translation.z]
        return r
    raise ValueError("cannot numpify")


# ------------------------------------------------------------------ tf2_ros
class TransformException(Exception):
    pass


class LookupException(TransformException):
    pass


class ConnectivityException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


class InvalidArgumentException(TransformException):
    pass


class TimeoutException(TransformException):
    pass


def tmat(t):
    return numpify(t.transform)


class Buffer:
    CACHE = 10_000_000_000

    def __init__(self, cache_time=None, debug=True):
        self.frames = {}      # child -> ("static", msg) or ("dyn", [(stamp, msg)])
        self.received = []
        W.buffers.append(self)

    def set_transform(self, t, authority="", static=False):
        self._set(t, static)
        if W.watch:
            W.watch(self)

    def _set(self, t, static):
        c = t.child_frame_id
        stamp = t.header.stamp.to_nsec()
        f = self.frames.get(c)
        if f is None:
            f = self.frames[c] = ["static", None] if static else ["dyn", []]
        if f[0] == "static":
            f[1] = t
            return
        l = f[1]
        if l and stamp < l[-1][0] - self.CACHE:
            return
        if any(x[0] == stamp for x in l):
            return
        l.append((stamp, t))
        l.sort(key=lambda x: x[0])
        while l and l[0][0] < l[-1][0] - self.CACHE:
            l.pop(0)

    def _chain(self, frame, when):
        """[(frame, matrix from that frame to `frame`'s coordinates inverse)] walking to the root"""
        out = [(frame, np.identity(4))]
        m = np.identity(4)
        seen = {frame}
        while frame in self.frames:
            kind, d = self.frames[frame]
            if kind == "static":
                t = d
            elif when is None:
                t = d[-1][1]
            else:
                c = [x for x in d if x[0] <= when]
                if not c:
                    return out, (frame, d[0][0])
                if when > d[-1][0]:
                    return out, (frame, d[-1][0])
                t = c[-1][1]
            m = tmat(t) @ m
            frame = t.header.frame_id
            if frame in seen:
                break
            seen.add(frame)
            out.append((frame, m))
        return out, None

    def known(self):
        k = set(self.frames)
        for kind, d in self.frames.values():
            for t in ([d] if kind == "static" else [x[1] for x in d]):
                k.add(t.header.frame_id)
        return k

    def _lookup(self, target, source, when):
        k = self.known()
        for f in (target, source):
            if f not in k and target != source:
                return None, LookupException(f'"{f}" passed to lookupTransform argument does not exist.')
        a, ea = self._chain(source, when)
        b, eb = self._chain(target, when)
        bm = dict(b)
        for f, m in a:
            if f in bm:
                return np.linalg.inv(bm[f]) @ m, None
        if ea or eb:
            return None, ExtrapolationException("Lookup would require extrapolation")
        return None, ConnectivityException("not part of the same tree")

    def can_transform_core(self, target, source, time):
        S().yield_point(W.can_cost)
        when = None if time.is_zero() else time.to_nsec()
        return self._lookup(target, source, when)[1] is None

    def can_transform(self, target_frame, source_frame, time, timeout=Duration(0), return_debug_tuple=False):
        if timeout != Duration(0):
            start = Time.now()
            r = Rate(20)
            while Time.now() < start + timeout and not self.can_transform_core(target_frame, source_frame, time) and \
                    (Time.now() + Duration(3)) >= start:
                r.sleep()
        ok = self.can_transform_core(target_frame, source_frame, time)
        return (ok, "") if return_debug_tuple else ok

    def lookup_transform(self, target_frame, source_frame, time, timeout=Duration(0)):
        if timeout != Duration(0):
            self.can_transform(target_frame, source_frame, time, timeout)
        S().yield_point()
        if W.lookup_fault:
            e = W.lookup_fault(self, target_frame, source_frame)
            if e:
                raise e
        when = None if time.is_zero() else time.to_nsec()
        m, err = self._lookup(target_frame, source_frame, when)
        W.lookups.append((target_frame, source_frame, m, err, S().now, when))
        if err:
            S().log("lookup", target_frame, source_frame, type(err).__name__)
            raise err
        S().log("lookup", target_frame, source_frame, np.round(m[:3].ravel(), 6).tolist())
        t = TransformStamped()
        t.header.frame_id = target_frame
        t.header.stamp = time + Duration(0)
        t.child_frame_id = source_frame
        q = quaternion_from_matrix(m)
        t.transform.rotation = Quaternion(*[float(x) for x in q])
        t.transform.translation = Vector3(*[float(x) for x in m[:3, 3]])
        S().yield_point()
        return t

    def transform(self, object_stamped, target_frame, timeout=Duration(0), new_type=None):
        if type(object_stamped) not in DO_TRANSFORM:
            raise TypeException(f"Type {type(object_stamped)} is not loaded or supported")
        t = self.lookup_transform(target_frame, object_stamped.header.frame_id, object_stamped.header.stamp, timeout)
        r = DO_TRANSFORM[type(object_stamped)](object_stamped, t)
        return r if new_type is None else convert(r, new_type)


class TypeException(TransformException):
    pass


def do_transform_point(p, t):
    v = tmat(t) @ np.array([p.point.x, p.point.y, p.point.z, 1.0])
    return PointStamped(copy.deepcopy(t.header), Point(*[float(x) for x in v[:3]]))


def do_transform_vector3(p, t):
    v = tmat(t)[:3, :3] @ np.array([p.vector.x, p.vector.y, p.vector.z])
    return Vector3Stamped(copy.deepcopy(t.header), Vector3(*[float(x) for x in v[:3]]))


def do_transform_pose(p, t):
    m = tmat(t) @ numpify(p.pose)
    return PoseStamped(copy.deepcopy(t.header), Pose(Point(*[float(x) for x in m[:3, 3]]), Quaternion(*[float(x) for x in quaternion_from_matrix(m)])))


DO_TRANSFORM = {PointStamped: do_transform_point, Vector3Stamped: do_transform_vector3, PoseStamped: do_transform_pose}


class KdlFrame:
    """another type a pose can be converted to (as PyKDL.Frame)"""

    def __init__(self, m, header):
        self.m, self.header = m, header


def convert(a, b_type):
    if type(a) is b_type:
        return a
    if type(a) is PoseStamped and b_type is KdlFrame:
        return KdlFrame(numpify(a.pose), copy.deepcopy(a.header))
    raise TypeException(f"no conversion from {type(a)} to {b_type}")


World.lookup_fault = None
World.watch = None
World.slow_send = 0


class TransformListener:
    def __init__(self, buffer, queue_size=None, buff_size=65536, tcp_nodelay=False):
        self.buffer = buffer
        S().yield_point()
        if W.net:
            W.net.add_listener(buffer)


class TransformBroadcaster:
    def __init__(self):
        self.pub_tf = Publisher("/tf", TFMessage, queue_size=100)

    def sendTransform(self, transform):
        slow_send()
        if not isinstance(transform, list):
            if hasattr(transform, "__iter__"):
                transform = list(transform)
            else:
                transform = [transform]
        self.pub_tf.publish(TFMessage(transform))


def slow_send():
    S().yield_point()
    if W.slow_send and S().chance(W.slow_send):
        S().fault("slow_send")
        S().sleep(S().choose(5) * 5_000_000)


class StaticTransformBroadcaster:
    def __init__(self):
        self.pub_tf = Publisher("/tf_static", TFMessage, queue_size=100, latch=True)

    def sendTransform(self, transform):
        slow_send()
        if not isinstance(transform, list):
            transform = [transform]
        self.pub_tf.publish(TFMessage(transform))


World.net = None


def install():
    exc = mod("rospy.exceptions", ROSException=ROSException, ROSInterruptException=ROSInterruptException, ROSInitException=ROSInitException,
              ROSTimeMovedBackwardsException=ROSTimeMovedBackwardsException)
    kw = {}
    for l in ("debug", "info", "warn", "err", "fatal"):
        kw["log" + l] = _log(l)
        kw["log" + l + "_throttle"] = _throttled(l)
    kw["logerror"] = kw["logerr"]
    kw["logwarning"] = kw["logwarn"]
    r = mod("rospy", Time=Time, Duration=Duration, Rate=Rate, sleep=ros_sleep, is_shutdown=is_shutdown, init_node=init_node,
            signal_shutdown=signal_shutdown, Subscriber=Subscriber, Publisher=Publisher, exceptions=exc, get_time=lambda: Time.now().to_sec(),
            get_rostime=Time.now, ROSException=ROSException, ROSInterruptException=ROSInterruptException, ROSInitException=ROSInitException,
            on_shutdown=lambda f: None, spin=spin, get_name=lambda: W.node, resolve_name=lambda n, c=None: W.resolve(n), get_namespace=lambda: W.namespace, **kw)
    r.names = mod("rospy.names", resolve_name=lambda n, c=None: W.resolve(n), get_namespace=lambda: W.namespace, get_name=lambda: W.node)
    r.core = mod("rospy.core", is_shutdown=is_shutdown, is_initialized=lambda: True)
    r.rostime = mod("rospy.rostime", Time=Time, Duration=Duration)

    class Master:
        def __init__(self, caller_id, *a):
            self.caller_id = caller_id

        def getSystemState(self):
            S().yield_point()
            return W.master.system_state()
    names = mod("rosgraph_names_tmp", script_resolve_name=lambda node, n: n if n.startswith("/") else node + "/" + n[1:] if n.startswith("~") else W.namespace + n,
                resolve_name=lambda n, c, r=None: n if n.startswith("/") else c + "/" + n[1:] if n.startswith("~") else W.namespace + n)
    mod("rosgraph", Master=Master, names=names)
    sys.modules["rosgraph.names"] = names
    mod("geometry_msgs")
    mod("geometry_msgs.msg", Point=Point, Vector3=Vector3, Quaternion=Quaternion, Pose=Pose, Transform=Transform, PoseStamped=PoseStamped,
        PointStamped=PointStamped, TransformStamped=TransformStamped, Vector3Stamped=Vector3Stamped)
    mod("sensor_msgs")
    mod("sensor_msgs.msg", Joy=Joy)
    mod("std_msgs")
    mod("std_msgs.msg", String=String, Float64=Float64, Header=Header)
    mod("tf2_msgs")
    mod("tf2_msgs.msg", TFMessage=TFMessage)
    mod("visualization_msgs")
    mod("visualization_msgs.msg", Marker=Marker, MarkerArray=MarkerArray)
    mod("inputs", InputEvent=type("InputEvent", (), {}))
    mod("ros_numpy", numpify=numpify)
    mod("tf")
    mod("tf.transformations", quaternion_matrix=quaternion_matrix, quaternion_from_matrix=quaternion_from_matrix, quaternion_from_euler=quaternion_from_euler)
    mod("tf2_geometry_msgs", do_transform_point=do_transform_point, do_transform_pose=do_transform_pose, do_transform_vector3=do_transform_vector3)
    mod("tf2_py", LookupException=LookupException)
    mod("tf2_ros", Buffer=Buffer, TransformListener=TransformListener, TransformBroadcaster=TransformBroadcaster,
        StaticTransformBroadcaster=StaticTransformBroadcaster, LookupException=LookupException, ConnectivityException=ConnectivityException,
        ExtrapolationException=ExtrapolationException, TransformException=TransformException, InvalidArgumentException=InvalidArgumentException,
        TimeoutException=TimeoutException, TypeException=TypeException, convert=convert)

    def cpp_init(name, args=None, **kw2):
        S().yield_point()
        for h in W.hooks:
            h("cpp.init_node", name, tuple(args or ()), kw2)

    def cpp_shutdown():
        S().yield_point()
        for h in W.hooks:
            h("cpp.shutdown", "", (), {})
    mod("roscpp_initializer", init_node=cpp_init, shutdown=cpp_shutdown)


World.lookups = None
_oi = World.__init__


def _init(self, s):
    _oi(self, s)
    self.lookups = []


World.__init__ = _init
