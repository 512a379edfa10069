"""C31, C32, C33: output paths, tree removal and the clean-up scripts on a simulated file system with other processes and errors."""
import argparse, builtins, errno, gettext, io, json, os, pathlib, shutil, sys  # noqa

import simcore
simcore.install()
import ros_stub as ros  # noqa: E402
ros.install()
import colorama  # noqa: E402
import numpy  # noqa: E402,F401
from arc_utilities import conversions, filesystem_utils as fu  # noqa: E402,F401
import memfs  # noqa: E402

SCRIPTS = {}
for n in ("remove_small_directories", "remove_directories_with_few_files"):
    path = f"{simcore.REPO}/scripts/{n}.py"
    exec(compile(open(path).read(), path, "exec"), {"__name__": "script_" + n, "__file__": path})    # its imports are made before the first run
    SCRIPTS[n] = lambda c=compile(open(path).read(), path, "exec"), f=path: exec(c, {"__name__": "__main__", "__file__": f, "__builtins__": builtins})
memfs.install()

P = pathlib.Path
ERR = {"stat": (errno.EACCES, errno.EIO, errno.ENOMEM), "lstat": (errno.EACCES, errno.EIO, errno.ENOMEM), "scandir": (errno.EACCES, errno.EMFILE, errno.EIO),
       "readdir": (errno.EIO,), "listdir": (errno.EACCES, errno.EMFILE, errno.EIO), "open": (errno.EACCES, errno.EMFILE, errno.ENFILE, errno.EIO),
       "unlink": (errno.EACCES, errno.EPERM, errno.EBUSY, errno.EIO, errno.EROFS), "rmdir": (errno.EACCES, errno.EBUSY, errno.EIO, errno.ENOTEMPTY, errno.EROFS),
       "mkdir": (errno.EACCES, errno.ENOSPC, errno.EIO, errno.EROFS, errno.EDQUOT, errno.EMLINK), "readlink": (errno.EIO,)}
ERROR_KINDS = (OSError, KeyboardInterrupt, MemoryError, RecursionError)


class World:
    """decides before every operation whether another process acts, whether it fails, and whether Ctrl-C strikes"""

    def __init__(self, s, fs, acts, busy=True, faults=True, sigint=True):
        self.s, self.fs, self.acts = s, fs, acts
        self.busy = s.pick([0, 0, 3, 8]) if busy else 0       # acts about every n-th operation
        self.err = s.pick([0, 0, 0, 10, 40]) if faults else 0
        self.sig = s.pick([0, 0, 0, 0, 30]) if sigint else 0
        self.sticky = bool(self.err) and s.chance(25)
        self.dead = None
        self.noise = 0          # what happened so far
        self.errors = 0
        fs.world = self

    def __call__(self, op, path, dir_fd):
        s = self.s
        if self.busy and s.choose(self.busy + 1) == self.busy:
            self.act()
        if self.sig and s.choose(self.sig + 1) == self.sig:
            self.sig = 0
            self.errors += 1
            s.fault("interrupt")
            raise KeyboardInterrupt("injected")
        es = ERR.get(op)
        if es and (self.dead == op or self.err and s.choose(self.err + 1) == self.err):
            e = es[s.choose(len(es))]
            self.errors += 1
            if self.sticky:
                self.dead = op
            s.fault(f"{op}_{errno.errorcode[e]}")
            raise memfs.err(e, path)

    def act(self):
        f = self.s.pick(self.acts)
        if f():
            self.noise += 1
            self.s.fault("other_process_" + f.__name__)


class Out(io.StringIO):
    def isatty(self):
        return False


class Console:
    """the user at the prompt and what was printed"""

    def __init__(self, s, world=None):
        self.s, self.asked, self.answer = s, 0, None
        self.world = world
        self.before = None

    def input(self, prompt=""):
        s = self.s
        self.asked += 1
        self.out.write(str(prompt))
        if self.before:
            self.before()
        if self.world and self.world.busy:
            for _ in range(s.choose(3)):
                self.world.act()
        k = s.choose(6)
        self.answer = ["", "y", "n", "Y", None, ""][k] if k != 5 else s.pick(["N", "no", "x", "n ", "0", "nay", EOFError("injected"), KeyboardInterrupt("injected")])
        if k == 4:
            self.answer = s.pick(["n", "N", "q"])
        s.log("answer", repr(self.answer))
        if self.world and self.world.busy:
            for _ in range(s.choose(3)):
                self.world.act()
        if isinstance(self.answer, BaseException):
            s.fault("no_answer_" + type(self.answer).__name__)
            raise self.answer
        return self.answer

    @property
    def yes(self):
        return self.asked == 1 and self.answer in ("", "y", "Y")

    def __enter__(self):
        self.out = Out()
        self.old = sys.stdout, sys.stderr, builtins.input, sys.argv
        sys.stdout, sys.stderr, builtins.input = self.out, Out(), self.input
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr, builtins.input, sys.argv = self.old


def call(f, *a, **k):
    try:
        return f(*a, **k), None
    except (simcore.SimExit, simcore.MachineryError):
        raise
    except BaseException as e:
        return None, e


def shown(e):
    return type(e).__name__ + ": " + str(e)[:200] if e is not None else "no exception"


# ------------------------------------------------------------------ C31
NAMES = ["out", "out.txt", "out.tar.gz", "a.b.c.d", ".hidden", ".hidden.txt", "out_v1", "out_v1.txt", "v1.2_data", "ünï", "with space.txt", "-x", "out..gz", "a" * 250, "a" * 249 + ".txt"]


def c31(s):
    fs = memfs.begin(s)
    depth = s.choose(3)
    d = fs.cwd
    rel = P(".") if depth == 0 else P()
    for i in range(depth):
        n = s.pick(["sub", "d.1", ".d"])
        d = d.kids.get(n) or fs.add(d, n, "d", by="init")
        rel = rel / n
    out = fs.add(fs.base, "outside", "d", by="init")
    fs.add(out, "kept", "f", by="init", size=7)
    if s.chance(30):
        rel = P("/sim/work") / rel
    for _ in range(1 + s.choose(2)):
        if s.chance(50):
            c31_name(s, fs, d, rel, out)
        else:
            c31_mkdir(s, fs, d, rel, out)


def variants(name):
    p = P(name)
    ext = "".join(p.suffixes)
    stems = {name[:len(name) - len(ext)], p.stem.split(".")[0]}
    return [f"{a}_v{i}{ext}" for a in sorted(stems) for i in range(1, 6)]


KINDS = ["f", "d", "l", "l2", "loop", "lf", "p", "s"]


def put_kind(s, fs, d, name, k, out, by):
    if k == "l":
        return fs.add(d, name, "l", by, target="nowhere")
    if k == "l2":
        return fs.add(d, name, "l", by, target="/sim/outside")
    if k == "lf":
        return fs.add(d, name, "l", by, target="/sim/outside/kept")
    if k == "loop":
        return fs.add(d, name, "l", by, target=name)
    return fs.add(d, name, k, by)


def c31_name(s, fs, d, rel, out):
    name = s.pick(NAMES)
    if s.chance(5):
        name = "out."
    want = rel / name
    names = [name] + variants(name)
    for n in names[:1 + s.choose(6)]:
        if n not in d.kids and s.chance(75):
            put_kind(s, fs, d, n, s.pick(KINDS), out, "init")
    if s.chance(20):
        d.deny = s.pick(["r", "x", "w"])

    def create():
        n = s.pick(names)
        if n in d.kids:
            return False
        put_kind(s, fs, d, n, s.pick(KINDS), out, "other")
        return True

    def remove():
        n = s.pick(names)
        if n not in d.kids:
            return False
        fs.drop(d, n)
        return True
    w = World(s, fs, [create, remove])
    used = set(d.kids)            # names with an entry from the start of the call on, without a break
    free0 = name not in d.kids
    always_free = [free0]
    mut = []

    def obs(who, what, dn, nm, node):
        if who == "code":
            mut.append((what, nm))
        elif dn is d:
            if what == "remove":
                used.discard(nm)
            elif nm == name:
                always_free[0] = False
    fs.observers = [obs]
    ops0 = fs.ops
    with Console(s, w) as con:
        got, e = call(fu.no_overwrite_path, want)
    fs.world, fs.observers = None, []
    s.log("no_overwrite_path", want, "->", got, shown(e))
    s.check(not mut, "changed", f"looking for a free name changed {mut}")
    s.check(not con.asked, "asked", "looking for a free name asked the user")
    deny, d.deny = d.deny, ""
    if e is not None:
        hard = "x" in deny or "r" in deny or w.errors or len(name) > 240
        s.check(isinstance(e, (OSError, KeyboardInterrupt, MemoryError)) and hard, "raised", f"no_overwrite_path({name!r}) raised {shown(e)}")
        s.probe("name_error")
        return
    s.check(isinstance(got, P), "type", f"returned {got!r}")
    s.check(got.parent == want.parent, "directory", f"{got} is not in the directory of {want}")
    s.check(got.name not in used, "clobber", f"{got.name!r} was chosen for {name!r}, but {fs.where(d)} had an entry of that name during the whole call ({d.kids.get(got.name)})")
    if always_free[0]:
        s.check(got == want, "not-wanted", f"{want} was free all along, yet {got} was chosen")
    ext = "".join(P(name).suffixes)
    stem = name[:len(name) - len(ext)]
    s.check(got.name.endswith(ext), "extension", f"{got.name!r} was chosen for {name!r}: another extension")
    s.check(got.name.startswith(stem.rstrip(".").split(".")[0] if not stem.startswith(".") else stem), "stem", f"{got.name!r} was chosen for {name!r}: another name")
    if got != want:
        s.check(name.endswith(".") or "".join(got.suffixes) == ext, "extension", f"{got.name!r} was chosen for {name!r}: another extension")
        s.probe("name_changed")
    else:
        s.probe("name_wanted")
    if not w.noise:
        s.check(fs.ops - ops0 <= 4 * (len(d.kids) + 2), "effort", f"{fs.ops - ops0} operations among {len(d.kids)} entries")


def c31_mkdir(s, fs, d, rel, out):
    deep = s.choose(3)
    name = s.pick(["run", "run.1", ".run"])
    parts = [name] + ["in", "ner"][:deep]
    path = rel.joinpath(*parts)
    # what is there before
    cur, have = d, 0
    for i, n in enumerate(parts):
        if n in cur.kids:
            if cur.kids[n].kind != "d":
                break
            cur, have = cur.kids[n], have + 1
            continue
        if not s.chance(60):
            break
        k = s.pick(["d", "d", "d"] + KINDS)
        x = put_kind(s, fs, cur, n, k, out, "init")
        if x.kind != "d":
            break
        cur, have = x, have + 1
        if s.chance(40):
            fs.add(x, "old.txt", "f", "init", size=3)
    if s.chance(15):
        cur.deny = s.pick(["w", "x", "r"])

    def lookup(follow=True):
        save = [(n, n.deny) for _, _, n in fs.walk(fs.base) if n.kind == "d"] + [(d, d.deny)]
        for n, _ in save:
            n.deny = ""
        try:
            return fs.walk_to(path, None, follow)
        except OSError:
            return None, None, None
        finally:
            for n, v in save:
                n.deny = v

    def place():
        """the deepest existing directory on the way, and the next name"""
        c = d
        for i, n in enumerate(parts):
            x = c.kids.get(n)
            if x is None:
                return c, n, None
            if x.kind != "d" or i == len(parts) - 1:
                return c, n, x
            c = x

    def create():
        c, n, x = place()
        if x is not None:
            return False
        put_kind(s, fs, c, n, s.pick(["d", "d", "d", "f", "l", "l2"]), out, "other")
        return True

    def remove():
        c, n, x = place()
        if x is None:
            return False
        fs.drop(c, n)
        return True

    def fill():
        c, n, x = place()
        if x is None or x.kind != "d" or "new" in x.kids:
            return False
        fs.add(x, "new", "f", size=1)
        return True
    w = World(s, fs, [create, remove, create, fill])
    mut = []
    fs.observers = [lambda who, what, dn, nm, node: who == "code" and mut.append((what, dn, nm, node))]
    yes = s.pick([False, False, True, None])
    parents = s.chance(50)
    noise_at_input = [0]
    seen_at_input = [None]
    con = Console(s, w)

    def before():
        seen_at_input[0] = len(mut)
    con.before = before
    start_dir = lookup()[2]
    start_any = lookup(False)[2]
    with con:
        kw = {} if yes is False and s.chance(50) else {"yes": yes}
        got, e = call(fu.mkdir_and_ask, path, parents=parents, **kw)
    fs.world, fs.observers = None, []
    now_dir = lookup()[2]
    printed = con.out.getvalue()
    s.log("mkdir_and_ask", path, parents, yes, "->", got, shown(e), con.asked)
    consent = bool(yes) or con.yes
    refused = con.asked and not con.yes
    s.check(con.asked <= 1, "asked", f"asked {con.asked} times")
    s.check(not (con.asked and yes), "asked", "asked although the answer was given beforehand")
    made = [m for m in mut if m[0] == "create"]
    way = []                     # directories this call may create: the path's own and its parents
    for what, dn, nm, node in mut:
        s.check(what == "create" and node.kind == "d", "altered", f"preparing {path} did: {what} {nm} {node}")
        s.check(nm in parts, "altered", f"preparing {path} created {nm} in {fs.where(dn)}")
        s.check(parents or nm == parts[-1], "parents", f"created the parent {nm} without being asked to")
    if refused:
        s.check(not got, "refusal", f"the user answered {con.answer!r}, yet {got!r} was returned")
        s.check(not made, "refusal", f"the user answered {con.answer!r}, yet {made} was created")
        if isinstance(con.answer, BaseException):
            s.check(e is con.answer, "refusal", f"no answer came ({shown(con.answer)}), the call ended with {shown(e)} {got!r}")
        else:
            s.check(e is None or w.errors, "raised", f"the user refused, the call raised {shown(e)}")
        s.probe("refused")
        return
    if e is not None:
        s.check(isinstance(e, (OSError, KeyboardInterrupt, MemoryError)), "raised", f"mkdir_and_ask raised {shown(e)}")
        calm = not w.errors and not w.noise and not any(n.deny for _, _, n in fs.walk(fs.base))
        if calm:
            missing = have < len(parts) - 1 and not parents
            blocked = start_any is not None and start_dir is None or start_any is not None and start_any.kind != "d"
            midway = have < len(parts) - 1
            s.check(missing or blocked or midway and start_any is None, "raised", f"mkdir_and_ask({path}) raised {shown(e)} though nothing was in the way")
        s.probe("prepare_error")
        return
    if not got:
        s.check(False, "result", f"returned {got!r} although nobody refused")
    s.check(now_dir is not None and now_dir.kind == "d", "not-there", f"success was reported, but {path} is {now_dir} (it was {start_any} at the start)")
    mine = any(m[3] is now_dir for m in made)
    if not mine:
        s.check(consent and (con.asked or "reuse" in printed or bool(yes)), "no-consent",
                f"{path} was made by somebody else and is reused without consent (asked {con.asked}, yes={yes!r})")
        s.probe("reused")
    else:
        s.probe("created")


# ------------------------------------------------------------------ trees
def grow(s, fs, d, out, budget, by="init", links=True, top=None):
    """a random tree below d"""
    top = top or d
    for i in range(s.choose(7)):
        if budget[0] <= 0:
            return
        budget[0] -= 1
        name = s.pick(["a", "b", "c.txt", ".h", "e f", "g*", "[z]", "~"])
        if name in d.kids:
            continue
        k = s.choose(12)
        if k < 4:
            x = fs.add(d, name, "f", by, size=s.pick([0, 1, 10, 500, 999, 1000, 4096]))
        elif k < 8 or not links:
            x = fs.add(d, name, "d", by)
            grow(s, fs, x, out, budget, by, links, top)
            if s.chance(3):
                x.deny = s.pick(["r", "x", "w"])
        elif k == 8:
            fs.add(d, name, s.pick(["p", "s"]), by)
        else:
            t = s.pick(["/sim/outside", "/sim/outside/kept", "nowhere", ".", "..", name, "/sim/outside/dir", fs.where(top), "a", "b"])
            fs.add(d, name, "l", by, target=t)


def outside(s, fs):
    out = fs.add(fs.base, "outside", "d", "init")
    fs.add(out, "kept", "f", "init", size=5000)
    dd = fs.add(out, "dir", "d", "init")
    fs.add(dd, "deep", "f", "init", size=50)
    fs.add(dd, "deep2", "f", "init", size=60)
    return out


def tree_acts(s, fs, roots):
    """what other processes do inside the trees"""
    def dirs():
        r = [x for x in roots() if x.note != "gone"]
        return r + [n for x in r for _, _, n in fs.walk(x) if n.kind == "d"]

    def entries():
        return [(a, b, c) for x in roots() if x.note != "gone" for a, b, c in fs.walk(x)]

    def create():
        ds = dirs()
        if not ds:
            return False
        d = s.pick(ds)
        name = s.pick(["new", "a", "b", ".h", "new2"])
        if name in d.kids:
            return False
        k = s.choose(4)
        if k == 3:
            fs.add(d, name, "l", target=s.pick(["/sim/outside", "..", "nowhere", "/sim/outside/kept"]))
        else:
            fs.add(d, name, "d" if k == 2 else "f", size=s.pick([1, 700, 5000]))
        return True

    def remove():
        es = entries()
        if not es:
            return False
        a, b, c = s.pick(es)
        fs.drop(a, b)
        return True

    def swap():
        es = [x for x in entries() if x[2].kind in "df"]
        if not es:
            return False
        a, b, c = s.pick(es)
        fs.drop(a, b)
        fs.add(a, b, "l", target=s.pick(["/sim/outside", "/sim/outside/dir", "..", "/sim/outside/kept", "/sim/work"]))
        return True

    def unswap():
        es = [x for x in entries() if x[2].kind in "lf"]
        if not es:
            return False
        a, b, c = s.pick(es)
        fs.drop(a, b)
        x = fs.add(a, b, "d")
        fs.add(x, "inside", "f", size=3)
        return True

    def resize():
        es = [x for x in entries() if x[2].kind == "f"]
        if not es:
            return False
        n = s.pick(es)[2]
        fs.resize(n, s.pick([0, 1, n.size + 300, n.size // 2, 6000]))
        return True
    return [create, remove, swap, unswap], resize


# ------------------------------------------------------------------ C32
def c32(s):
    fs = memfs.begin(s)
    fs.unknown_type = s.chance(20)
    fs.rotate = s.choose(4)
    outside(s, fs)
    sib = fs.add(fs.cwd, "sibling", "d", "init")
    fs.add(sib, "kept", "f", "init")
    name = s.pick(["tree", ".tree", "t ree", "tree*"])
    root = fs.add(fs.cwd, name, "d", "init")
    grow(s, fs, root, None, [s.pick([6, 12, 25])])
    deny = [n for _, _, n in fs.walk(root) if n.deny]
    form = s.choose(8)
    given = P(name)
    linked = False
    if form == 5:
        given = P("/sim/work") / name
    elif form == 6:
        given = P("../work") / name
    elif form == 7:
        fs.add(fs.cwd, "link", "l", "init", target=s.pick([name, "/sim/outside"]))
        given, linked = P("link"), True
    arg = str(given) if s.chance(20) else given
    acts, _ = tree_acts(s, fs, lambda: [root] if not linked else [root])
    other_root = []

    def take_root():
        if fs.cwd.kids.get(name) is not root or s.choose(6):
            return False
        fs.drop(fs.cwd, name)
        other_root.append("gone")
        if s.chance(50):
            fs.add(fs.cwd, name, "l", target="/sim/outside")
        return True
    w = World(s, fs, acts + [take_root])
    bad = []

    def obs(who, what, dn, nm, node):
        if who != "code":
            return
        if dn is None:
            ok = node is root or node.kind == "d" and fs.inside(node, root) or any(x is node for _, _, x in fs.walk(root))
        elif node is root:
            ok = what == "remove" and dn is fs.cwd and nm == name and node.kind == "d" and not linked
        elif linked and dn is fs.cwd and nm == "link":
            ok = what == "remove"
        else:
            ok = fs.inside(dn, root) and root.note != "gone" and not linked
        if not ok:
            bad.append((what, fs.where(dn) if dn else "", nm, node))
            s.fail("outside", f"removing {given} did {what} {nm!r} {node} in {fs.where(dn) if dn else '?'}, which is not inside the tree")
        if what in ("create", "truncate", "write"):
            s.fail("creates", f"removing {given} did {what} {nm!r}")
    fs.observers = [obs]
    with Console(s) as con:
        _, e = call(fu.rm_tree, arg)
    fs.world, fs.observers = None, []
    there = fs.cwd.kids.get(name) is root
    s.log("rm_tree", given, shown(e), there)
    s.check(not con.asked, "asked", "asked the user")
    if linked:
        s.check(there or other_root, "outside", f"the target of the symbolic link {given} was removed")
        s.probe("given_a_link")
        return
    if e is None:
        s.check(not there, "left", f"returned normally, but the tree is still there with {[k for _, k, _ in fs.walk(root)]}")
        if not other_root:
            s.check(name not in fs.cwd.kids, "left", "the name is still there")
        s.probe("removed")
    else:
        s.check(isinstance(e, ERROR_KINDS), "raised", f"raised {shown(e)}")
        s.check(there or other_root, "root", f"raised {shown(e)} after the root was gone")
        quiet = not w.noise and not w.errors and not deny
        s.check(not quiet, "raised", f"nothing was in the way, yet {shown(e)}")
        s.probe("remove_error")


# ------------------------------------------------------------------ C33
def decimal(n, mul):
    """n as a multiple of mul, written exactly"""
    i, r = divmod(n, mul)
    if not r:
        return str(i)
    f = f"{r:0{len(str(mul)) - 1}d}".rstrip("0")
    return (str(i) if i else "") + "." + f


def size_text(s, n):
    k = s.choose(4)
    t = [str(n), decimal(n, 1000) + s.pick("kK"), decimal(n, 10 ** 6) + s.pick("mM"), decimal(n, 10 ** 9) + s.pick("gG")][k]
    return t + s.pick(["", "b", "B"])


class Measure:
    """least and greatest size and count of a directory over the time it was measured"""

    def __init__(self, fs, d):
        self.fs, self.d = fs, d
        self.lo, self.hi = {}, {}
        self.stirred = False     # entries came, went or were replaced: an entry may have been looked at as one thing and then as another
        self.update(True)

    def update(self, first=False):
        seen = {}
        for a, b, n in self.fs.walk(self.d):
            seen[(a, b, n)] = n
        self.stirred |= not first and seen.keys() != self.hi.keys()
        for k in list(self.lo):
            if k not in seen:
                self.lo[k] = (0, 0)
        for k, n in seen.items():
            lo = hi = (0, 0)
            if n.kind == "f":
                lo = hi = (n.size, 1)
            elif n.kind == "l":
                lo, hi = (0, 1), (10 ** 6, 1)     # a link counts as a file; its size may be that of its target
                t = self.target(k[0], n)
                if t is None or t.kind != "f":
                    hi = (len(n.target), 1)
            elif n.kind in "ps":
                lo = hi = (0, 1)
            if k not in self.hi:
                self.hi[k] = hi
                self.lo[k] = lo if first else (0, 0)
            else:
                self.hi[k] = max(self.hi[k][0], hi[0]), max(self.hi[k][1], hi[1])
                self.lo[k] = min(self.lo[k][0], lo[0]), min(self.lo[k][1], lo[1])

    def target(self, d, n):
        fs = self.fs
        cwd, fs.cwd = fs.cwd, d
        try:
            return fs.walk_to(n.target)[2]
        except OSError:
            return None
        finally:
            fs.cwd = cwd

    def bounds(self, i):
        return sum(v[i] for v in self.lo.values()), sum(v[i] for v in self.hi.values())


BAD_SIZES = ["10q", "-5", "", "1e3", "10 k", "k", "b", "10kbb", "0x10", "ten", "1,5k", "k10", " 10"]


def c33(s):
    fs = memfs.begin(s)
    fs.unknown_type = s.chance(20)
    fs.rotate = s.choose(4)
    outside(s, fs)
    nroots = 1 + s.choose(3)
    roots, given = [], []
    for i in range(nroots):
        name = ["r0", "r 1", ".r2"][i]
        r = fs.add(fs.cwd, name, "d", "init")
        roots.append(r)
        given.append(P(name) if s.choose(4) else P("/sim/work") / name)
        for j in range(s.choose(5)):
            k = s.choose(10)
            nm = s.pick(["d1", "d2", "d3", ".d4", "d 5"])
            if nm in r.kids:
                continue
            if k < 7:
                x = fs.add(r, nm, "d", "init")
                grow(s, fs, x, None, [s.pick([3, 8, 15])])
                if s.chance(2):
                    x.deny = s.pick("rxw")
            elif k == 7:
                fs.add(r, nm, "f", "init", size=3)
            elif k == 8:
                fs.add(r, nm, "l", "init", target=s.pick(["/sim/outside", "/sim/outside/dir", "d1", "d2", "..", "nowhere", "/sim/outside/kept", "."]))
            else:
                fs.add(r, nm, s.pick("ps"), "init")
    # the same root twice, a root inside another, a root reached through a link
    if s.chance(12):
        given.append(s.pick(given))
    if s.chance(12):
        inner = [(g, k, n) for g, r in zip(given, roots) for k, n in r.kids.items() if n.kind == "d"]
        if inner:
            g, k, n = s.pick(inner)
            at = s.choose(2)
            given.insert(0 if at else len(given), g / k)
            roots.insert(0 if at else len(roots), n)
    if s.chance(6):
        fs.add(fs.cwd, "rl", "l", "init", target="r0")
        given[-1] = P("rl")
    missing = False
    if s.chance(3):
        given.append(P("missing"))
        missing = True
    s.log("roots", given)
    tool = s.choose(4)          # two scripts, direct use, the helper that lists subdirectories
    if tool == 3:
        return c33_subdirs(s, fs, given, roots)

    def node_of(p):
        try:
            return fs.walk_to(p)[2], fs.walk_to(p, None, False)[2]
        except OSError:
            return None, None
    # candidates: every entry directly inside a root, by the path a user would see
    save = [(n, n.deny) for _, _, n in fs.walk(fs.base) if n.kind == "d" and n.deny]
    for n, _ in save:
        n.deny = ""
    cand = {}
    for g in dict.fromkeys(given):
        r = node_of(g)[0]
        if r is None:
            continue
        for k in list(r.kids):
            cand[(g / k).as_posix()] = node_of(g / k)
    for n, v in save:
        n.deny = v
    dirs = {p: n for p, (t, n) in cand.items() if n is not None and n.kind == "d"}
    meas = {p: Measure(fs, n) for p, n in dirs.items()}
    acts, resize = tree_acts(s, fs, lambda: [r for r in roots])
    acts = acts + [resize, resize]
    w = World(s, fs, acts)
    state = {"phase": "measure", "left": set(), "offered": None}
    muts = []
    con = Console(s, w)
    denied = [n for n, _ in save]

    def prompt():
        state["phase"] = "answer"
        lines = con.out.getvalue().split("\n")
        state["printed"] = lines
        resolve_offer()
    con.before = prompt
    offered_nodes = []

    def inside_offer(dn):
        return any(fs.inside(dn, x) and x.note != "gone" for x in offered_nodes)

    def obs(who, what, dn, nm, node):
        if who == "code":
            muts.append((what, nm))
            s.check(con.yes, "no-consent", lambda: f"{what} {nm!r} {node} without an affirmative answer (asked {con.asked}, answer {con.answer!r})")
            ok = what == "remove" and (inside_offer(dn) or node in offered_nodes) or what == "chmod" and node.kind == "d" and inside_offer(node)
            s.check(ok, "not-offered", lambda: f"{what} {nm!r} {node} in {fs.where(dn) if dn else '?'}, which was not among the offered {state['offered']}")
            return
        if state["phase"] == "answer":
            add_nodes()
        else:
            for p, m in meas.items():
                m.update()
            for p, n in dirs.items():
                if node_at(p) is not n:
                    state["left"].add(p)
    fs.observers = [obs]

    def node_at(p):
        ds = [(n, n.deny) for n in denied if n.deny]
        for n, _ in ds:
            n.deny = ""
        try:
            return fs.walk_to(p, None, False)[2]
        except OSError:
            return None
        finally:
            for n, v in ds:
                n.deny = v

    def resolve_offer():
        if state["offered"] is None:
            pr = list(dict.fromkeys(x for x in state["printed"] if x))
            here = {g.as_posix() for g in given}
            state["offered"] = [p for p in pr if p in cand or P(p).parent.as_posix() in here]
            add_nodes()

    def add_nodes():
        # a path names whatever directory is there; a program cannot tell that it was replaced by another one
        for p in state["offered"]:
            n = node_at(p)
            if n is not None and n.kind == "d" and n not in offered_nodes:
                offered_nodes.append(n)
    # limit: near one directory's own measure
    which = s.choose(2)
    pool = [m.bounds(which)[0] for m in meas.values()] or [0]
    limit = max(0, s.pick(pool) + s.pick([0, 1, -1, 1, 300, -300, 5000, 100000]))
    if which == 1:
        limit = max(0, s.pick(pool) + s.pick([0, 1, -1, 1, 3, 100]))
    bad_limit = False
    with con:
        if tool < 2:
            text = str(limit) if which else size_text(s, limit)
            if s.chance(6):
                text, bad_limit = s.pick(BAD_SIZES), True
                if which:
                    text = s.pick(["1.5", "x", "1k", ""])
            script = SCRIPTS["remove_directories_with_few_files" if which else "remove_small_directories"]
            sys.argv = ["script"] + [str(g) for g in given] + (["--"] if text.startswith("-") else []) + [text]
            if text.startswith("-"):
                sys.argv = ["script", "--"] + [str(g) for g in given] + [text]
            s.log("script", sys.argv)
            _, e = call(script)
            if isinstance(e, SystemExit) and not e.code:
                e = None
        else:
            listed = [p for p in dirs if s.chance(60)]
            if s.chance(15) and listed:
                listed.append(s.pick(listed))
            arg = [P(p) for p in listed]
            form = s.choose(4)
            arg = [lambda: arg, lambda: tuple(arg), lambda: (x for x in arg), lambda: iter(arg)][form]()
            s.log("ask", listed, form)
            _, e = call(fu.ask_to_remove_directories, arg)
    fs.world = None
    fs.observers = []
    offered = state["offered"]
    s.log("ended", shown(e), "asked", con.asked, repr(con.answer), "offered", offered, "limit", limit)
    s.check(con.asked <= 1, "asked", f"asked {con.asked} times")
    if bad_limit:
        s.check(e is not None and not con.asked, "bad-limit", f"the limit {sys.argv[-1] if 0 else text!r} was taken")
        s.probe("bad_limit")
        return
    if con.asked:
        if tool < 2:
            for p, (t, n) in cand.items():
                if p in dirs:
                    m = meas[p]
                    lo, hi = m.bounds(which)
                    hurt = w.errors or any(x is dirs[p] or fs.inside(x, dirs[p]) for x in denied if x.deny) or any(r.deny for r in roots)
                    if lo >= limit:
                        s.check(p not in offered, "at-or-above", f"{p} measured at least {lo} the whole time, the limit is {limit}, and it was offered")
                    if hi < limit and not hurt and not m.stirred and p not in state["left"]:
                        s.check(p in offered, "missed", f"{p} measured at most {hi} the whole time, the limit is {limit}, and it was not offered")
                elif not w.noise:
                    s.check(p not in offered, "not-a-directory", f"{p} is {n}, not a directory, and was offered")
            lines = state["printed"]
            for x in lines[1:]:
                if x.startswith("[Y/n]") or not x or "\x1b" in x:
                    continue
                if x not in cand and not w.noise:
                    s.fail("stray", f"{x!r} was offered, which is no entry of the roots {sorted(cand)}")
            s.probe("offered" if offered else "nothing_to_offer")
        else:
            s.check(sorted(set(listed)) == sorted(offered), "list", f"asked to remove {listed}, the user was shown {offered}")
    if not con.yes:
        s.check(not muts, "no-consent", f"changed {muts} without an affirmative answer")
        if con.asked and isinstance(con.answer, BaseException):
            s.check(e is con.answer, "answer", f"the answer was {shown(con.answer)}, the tool ended with {shown(e)}")
        s.probe("declined" if con.asked else "not_asked")
    else:
        left = [p for p in offered if node_at(p) in offered_nodes]
        if e is None:
            s.check(not left, "left", f"ended normally after a yes, but {left} are still there")
            s.probe("deleted")
        else:
            s.probe("delete_error")
    if e is not None:
        s.check(isinstance(e, ERROR_KINDS + (EOFError,)), "raised", f"raised {shown(e)}")
        s.check(w.errors or w.noise or denied or missing or isinstance(con.answer, BaseException), "raised", f"nothing was in the way, yet {shown(e)}")
    elif not w.errors and not w.noise and not missing:
        s.check(con.asked == 1, "asked", "ended normally without asking")


def c33_subdirs(s, fs, given, roots):
    want = []
    for g in given:
        try:
            r = fs.walk_to(g)[2]
        except OSError:
            r = None
        if r is None:
            want = None
            break
        for k in r.kids:
            try:
                n = fs.walk_to(g / k)[2]
            except OSError:
                n = None
            if n is not None and n.kind == "d":
                want.append((g / k).as_posix())
    muts = []
    w = World(s, fs, tree_acts(s, fs, lambda: roots)[0], busy=False)
    fs.observers = [lambda who, *a: who == "code" and muts.append(a[:1])]
    form = s.choose(3)
    arg = [lambda: given, lambda: tuple(given), lambda: (g for g in given)][form]()
    with Console(s) as con:
        got, e = call(fu.get_all_subdirs, arg)
    s.check(not muts and not con.asked, "changed", "listing subdirectories changed something")
    deny = any(n.deny for _, _, n in fs.walk(fs.base) if n.kind == "d")
    if e is None:
        s.check(want is not None, "subdirs", f"no error for a root that does not exist: {got}")
        if not w.errors and not deny:
            s.check(sorted(p.as_posix() for p in got) == sorted(want), "subdirs", f"subdirectories of {given}: {got}, should be {want}")
    else:
        s.check(isinstance(e, ERROR_KINDS) and (w.errors or deny or want is None), "raised", f"raised {shown(e)}")
    s.probe("listed")


SCENARIOS = {"C31": c31, "C32": c32, "C33": c33}
