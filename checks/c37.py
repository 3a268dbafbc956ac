"""The compass initialisation node runs as __main__ on stand-ins for rospy, tf and
the dynamic_reconfigure client; the harness acts whenever the node sleeps."""
import math, os, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import pypbt
from pypbt import target

SCRIPT = os.path.join(os.environ.get("MSF_REPO", "/repo"), "msf_updates/src/position_msf/init_yaw_from_compass.py")
TEXT = open(SCRIPT).read()


class Msg:
    """Fields only: like a generated ROS message it cannot be indexed or iterated."""
    def __init__(self, **k):
        self.__dict__.update(k)


class Vector3(Msg): pass
class Quaternion(Msg): pass
class Imu(Msg): pass
class Float64(Msg): pass


def euler_from_quaternion(q, axes="sxyz"):
    x, y, z, w = [float(v) for v in q[:4]]  # indexable, x y z w
    n = x * x + y * y + z * z + w * w
    if n < 8.8817841970012523e-16:
        return (0.0, 0.0, 0.0)
    s = 2.0 / n
    m00, m10 = 1 - s * (y * y + z * z), s * (x * y + z * w)
    m20, m21, m22 = s * (x * z - y * w), s * (y * z + x * w), 1 - s * (x * x + y * y)
    m11, m12 = 1 - s * (x * x + z * z), s * (y * z - x * w)
    cy = math.sqrt(m00 * m00 + m10 * m10)
    if cy > 8.8817841970012523e-16:
        return (math.atan2(m21, m22), math.atan2(-m20, cy), math.atan2(m10, m00))
    return (math.atan2(-m12, m11), math.atan2(-m20, cy), 0.0)


class World:
    def __init__(self, params, act):
        self.subs, self.params, self.act = {}, params, act
        self.updates, self.errors, self.down, self.clients = [], [], False, []

    def modules(w):
        def mod(name, **k):
            m = types.ModuleType(name)
            m.__dict__.update(k)
            return m

        class Subscriber:
            def __init__(self, name, data_class, callback=None, callback_args=None, queue_size=None, buff_size=65536, tcp_nodelay=False):
                self.name, self.type, self.cb, self.args = name, data_class, callback, callback_args
                w.subs.setdefault(name.lstrip("~/"), []).append(self)

            def unregister(self):
                for l in w.subs.values():
                    if self in l:
                        l.remove(self)

        class Rate:
            def __init__(self, hz, reset=False):
                self.period = 1.0 / float(hz)

            def sleep(self):
                w.act(w)

        class Client:
            def __init__(self, name, timeout=None, config_callback=None, description_callback=None):
                self.name = name
                w.clients.append(name)

            def update_configuration(self, changes):
                w.updates.append((self.name, dict(changes)))
                return dict(changes)

        def get_param(name, *default):
            n = name.lstrip("~/")
            if n in w.params:
                return w.params[n]
            if default:
                return default[0]
            raise KeyError(name)

        quiet = lambda *a, **k: None
        rospy = mod("rospy", Subscriber=Subscriber, Rate=Rate, get_param=get_param, has_param=lambda n: n.lstrip("~/") in w.params,
                    init_node=quiet, is_shutdown=lambda: w.down, loginfo=quiet, logwarn=quiet, logerr=quiet, logdebug=quiet, logfatal=quiet,
                    sleep=lambda d: w.act(w), ROSInterruptException=type("ROSInterruptException", (Exception,), {}), get_name=lambda: "/init_yaw")
        client = mod("dynamic_reconfigure.client", Client=Client)
        tft = mod("tf.transformations", euler_from_quaternion=euler_from_quaternion)
        geo, sen, std = mod("geometry_msgs.msg", Vector3=Vector3, Quaternion=Quaternion), mod("sensor_msgs.msg", Imu=Imu), mod("std_msgs.msg", Float64=Float64)
        return {"roslib": mod("roslib", load_manifest=quiet), "rospy": rospy, "geometry_msgs": mod("geometry_msgs", msg=geo), "geometry_msgs.msg": geo,
                "sensor_msgs": mod("sensor_msgs", msg=sen), "sensor_msgs.msg": sen, "std_msgs": mod("std_msgs", msg=std), "std_msgs.msg": std,
                "tf": mod("tf", transformations=tft), "tf.transformations": tft, "dynamic_reconfigure": mod("dynamic_reconfigure", client=client), "dynamic_reconfigure.client": client}

    def deliver(self, topic, msg):
        n = 0
        for s in list(self.subs.get(topic, [])):
            if s.type is type(msg):
                n += 1
                try:
                    s.cb(msg) if s.args is None else s.cb(msg, s.args)
                except Exception as e:  # rospy logs a failing callback and goes on
                    self.errors.append("%s: %s" % (type(e).__name__, e))
        return n


def quat(c):
    yaw = c.pick([0.0, math.pi / 2, -math.pi / 2, 3.0, -3.0]) if c.chance(20) else c.sym(3.1415)
    roll, pitch = c.sym(1.5), c.sym(1.5)
    k = c.pick([1.0, -1.0])  # both signs are the same attitude
    cr, sr, cp, sp, cy, sy = math.cos(roll / 2), math.sin(roll / 2), math.cos(pitch / 2), math.sin(pitch / 2), math.cos(yaw / 2), math.sin(yaw / 2)
    return Quaternion(w=k * (cr * cp * cy + sr * sp * sy), x=k * (sr * cp * cy - cr * sp * sy), y=k * (cr * sp * cy + sr * cp * sy), z=k * (cr * cp * sy - sr * sp * cy)), math.degrees(yaw)


def angle(c):
    return c.pick([0.0, 90.0, 180.0, 270.0, 359.0, -180.0, -90.0, 181.0]) if c.chance(30) else c.real(0, 360) if c.boolean() else c.sym(180)


def message(c):
    k = c.i(0, 3)
    if k == 0:
        q, d = quat(c)
        return "imu", Imu(orientation=q, angular_velocity=Vector3(x=c.sym(9), y=c.sym(9), z=c.sym(9)), linear_acceleration=Vector3(x=c.sym(9), y=c.sym(9), z=c.sym(9))), d
    if k == 1:
        q, d = quat(c)
        return "orientation_quaternion", q, d
    if k == 2:
        d = angle(c)
        return "orientation_degrees", Vector3(x=c.sym(180), y=c.sym(90), z=d), d
    d = angle(c)
    return "heading_radians", Float64(data=math.radians(d)), d


@target("random message histories on the four inputs, interleaved with the node's cycles; non-trivial: at least three messages of two kinds with cycles in between")
def compass(c):
    st = {"heading": None, "cycle": 0, "sent": 0, "kinds": set(), "seen": 0}
    node = c.pick(["msf_gps_pose_estimator/position_sensor", "uav/position_sensor"])
    params = {} if node.startswith("msf_gps") and c.boolean() else {"msf_sensor_node": node}
    silent, total = c.i(0, 3), 3 + c.i(0, 8)

    def check(w):
        new = w.updates[st["seen"]:]
        st["seen"] = len(w.updates)
        if st["heading"] is None:
            c.require(not new, "the yaw was written before any heading was received:", new)
            return
        for name, ch in new:
            c.require(name == node, "the parameter of", name, "was written, configured is", node)
            c.require(list(ch) == ["position_yaw_init"], "written:", ch)
            y = ch["position_yaw_init"]
            c.require(-180 <= y <= 180, "yaw %.9g is outside the parameter's range and would be clipped; heading is %.9g" % (y, st["heading"]))
            d = (y - st["heading"] + 180) % 360 - 180
            c.require(abs(d) < 1e-6, "yaw %.9g written, last heading is %.9g" % (y, st["heading"]))

    def act(w):  # one sleep of the node
        check(w)
        if st["heading"] is not None:
            c.require(w.updates, "a heading was received, but no yaw written a full cycle later")
            d = (w.updates[-1][1]["position_yaw_init"] - st["heading"] + 180) % 360 - 180
            c.require(abs(d) < 1e-6, "a full cycle after heading %.9g the yaw is still %.9g" % (st["heading"], w.updates[-1][1]["position_yaw_init"]))
        st["cycle"] += 1
        c.require(st["cycle"] < 200, "the node does not stop on shutdown")
        if st["cycle"] > total:
            w.down = True
            return
        if st["cycle"] <= silent:
            return
        for _ in range(c.pick([0, 1, 1, 2])):
            topic, m, d = message(c)
            c.note("cycle %d: %s %.9g deg" % (st["cycle"], topic, d))
            n = w.deliver(topic, m)
            c.require(n == 1, "input", topic, "has", n, "matching subscriptions")
            c.require(not w.errors, "a message on", topic, "is not processed:", w.errors)
            st["heading"] = d
            st["sent"] += 1
            st["kinds"].add(topic)
            c.label(topic)

    w = World(params, act)
    saved = {k: sys.modules.get(k) for k in w.modules()}
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        sys.modules.update(w.modules())
        exec(compile(TEXT, SCRIPT, "exec"), {"__name__": "__main__", "__file__": SCRIPT})
    finally:
        sys.stdout.close()
        sys.stdout = out
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    check(w)
    c.nontrivial(st["sent"] >= 3 and len(st["kinds"]) >= 2)


if __name__ == "__main__":
    sys.exit(pypbt.main())
