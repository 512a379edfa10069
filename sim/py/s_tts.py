"""C58: scripts/tts_node.py with several senders and an espeak that is slow, missing or failing."""
import errno, io, os, shlex, shutil, subprocess, threading

import simcore
simcore.install()
import ros_stub as ros  # noqa: E402
ros.install()

SCRIPT = f"{simcore.REPO}/scripts/tts_node.py"
CODE = compile(open(SCRIPT).read(), SCRIPT, "exec")
exec(CODE, {"__name__": "script_tts_node", "__file__": SCRIPT})     # its imports are made before the first run
MS = 1_000_000
E = None                 # the Espeak of this run


class Espeak:
    def __init__(self, s):
        self.s = s
        self.said = []           # [begin, end, text, ok]: one per process that was started for a text
        self.tried = []          # [when, text, why not]
        self.fault = s.pick([0, 0, 0, 3, 8])
        self.slow = s.pick([0, 1, 30, 400]) * MS
        self.missing = (s.now + s.choose(8) * 50 * MS, 1 + s.choose(8) * 60 * MS) if s.chance(15) else None

    def text_of(self, argv, stdin):
        """what espeak says when it is called like this; None: nothing (options are parsed like getopt_long does)"""
        words, i, only, from_stdin, quiet = [], 1, False, False, False
        while i < len(argv):
            a = argv[i]
            i += 1
            if only or not a.startswith("-") or a == "-":
                words.append(a)
            elif a == "--":
                only = True
            elif a == "--stdin":
                from_stdin = True
            elif a.startswith("--"):
                return None                      # --help, --version, --voices, or one it does not know
            else:
                for k, c in enumerate(a[1:]):
                    if c in "abdDfgklpPsvw":
                        if c in "fw":
                            return None          # says a file, or into a file
                        if k == len(a) - 2:
                            i += 1
                        break
                    if c not in "mxXz":
                        return None
        if words and not from_stdin:
            return words[0]                      # it ignores the others
        return stdin

    def start(self, argv):
        """may refuse like fork or exec do"""
        s = self.s
        s.yield_point()
        for a in argv:
            if "\0" in a:
                raise ValueError("embedded null byte")
        name = os.path.basename(argv[0]) if argv else ""
        gone = self.missing and self.missing[0] <= s.now < self.missing[0] + self.missing[1]
        why = None
        if name not in ("espeak", "espeak-ng"):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        if gone:
            why = FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        elif self.fault and s.choose(self.fault) == self.fault - 1:
            why = s.pick([BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable"), OSError(errno.ENOMEM, "Cannot allocate memory"),
                          PermissionError(errno.EACCES, "Permission denied", argv[0])])
        if why:
            s.fault("espeak_" + errno.errorcode[why.errno])
            self.tried.append([s.now, self.text_of(argv, None)])
            raise why


class Popen:
    """a process that is espeak; everything else of subprocess is the standard library's and comes here"""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        s = E.s
        if isinstance(args, (str, bytes, os.PathLike)):
            args = os.fsdecode(args)
            argv = [args]
        else:
            argv = [os.fsdecode(a) for a in args]
        if shell:
            argv = self.by_shell(s, argv[0])
        self.args, self.returncode, self.pid = args, None, 4000 + len(E.said)
        self.as_text = bool(text or encoding or errors or universal_newlines)
        E.start(argv)
        self.argv = argv
        self.stdin = self.stdout = self.stderr = None
        kind = io.StringIO if self.as_text else io.BytesIO
        if stdin == subprocess.PIPE:
            self.stdin = kind()
            self.stdin.close_, self.stdin.close = self.stdin.close, self.close_stdin
        if stdout == subprocess.PIPE:
            self.stdout = kind()
        if stderr == subprocess.PIPE:
            self.stderr = kind()
        self.rec = self.end = None
        if self.stdin is None:
            self.begin(None)

    def by_shell(self, s, line):
        lex = shlex.shlex(line, posix=True, punctuation_chars=True)
        lex.whitespace_split = True
        lex.commenters = "#"
        quoted, bad = None, False
        k = 0
        while k < len(line):
            c = line[k]
            if c == "\\" and quoted != "'":
                k += 1
            elif c == quoted:
                quoted = None
            elif quoted is None and c in "'\"":
                quoted = c
            elif quoted != "'" and c in "$`" or quoted is None and c in ";&|<>()*?[~#\n":
                bad = True
            k += 1
        s.check(not bad and quoted is None, "shell", lambda: f"the text becomes commands of a shell: {line!r}")
        return list(lex)

    def close_stdin(self):
        if self.rec is None:
            v = self.stdin.getvalue()
            self.stdin.close_()
            self.begin(v if isinstance(v, str) else v.decode("utf-8", "surrogateescape"))

    def begin(self, stdin):
        s = E.s
        text = E.text_of(self.argv, stdin)
        long = s.choose(6) * E.slow // 3 if E.slow else 0
        self.code = 0
        if E.fault and s.choose(E.fault) == E.fault - 1:
            self.code = s.pick([1, -9, -11])
            s.fault("espeak_fails")
        self.end = s.now + long
        self.rec = [s.now, None, text, self.code == 0]
        E.said.append(self.rec)
        s.log("espeak", self.argv, "says", repr(text))

    def wait(self, timeout=None):
        s = E.s
        if self.rec is None and self.stdin is not None:
            self.close_stdin()
        if self.returncode is None:
            if timeout is not None and self.end - s.now > timeout * 1e9:
                s.sleep(int(timeout * 1e9))
                raise subprocess.TimeoutExpired(self.args, timeout)
            if self.end > s.now:
                s.sleep(self.end - s.now)
            else:
                s.yield_point()
            self.over()
        return self.returncode

    def over(self):
        self.returncode = self.code
        self.rec[1] = max(self.end, self.rec[0])

    def poll(self):
        if self.rec is not None and self.returncode is None and E.s.now >= self.end:
            self.over()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if self.stdin is not None and self.rec is None:
            if input:
                self.stdin.write(input)
            self.close_stdin()
        self.wait(timeout)
        empty = "" if self.as_text else b""
        return (empty if self.stdout is not None else None), (empty if self.stderr is not None else None)

    def kill(self):
        if self.rec is not None and self.poll() is None:
            E.s.fail("cut-off", f"{self.rec[2]!r} was cut off")

    terminate = kill

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


subprocess.Popen = Popen


def os_system(line):
    try:
        return Popen(line, shell=True).wait() << 8
    except OSError:
        return 127 << 8


os.system = os_system
os.spawnvp = lambda mode, f, args: Popen(args).wait()
os.spawnlp = lambda mode, f, *args: Popen(args).wait()
shutil.which = lambda n, *a, **k: "/usr/bin/" + n if n in ("espeak", "espeak-ng") and not (E.missing and E.missing[0] <= E.s.now < sum(E.missing)) else None

TEXTS = ["hello world", "two  spaces ", "-5 degrees", "--help", "-f /etc/passwd", "-w/tmp/x", "--stdin", "-q", "", " leading", "it's \"quoted\"", "$HOME `id`; true && false",
         "line\nbreak", "gr\u00fc\u00dfe \u4f60\u597d", "*", "%s {0} %d", "-", "--", "<b>bold</b>", "word " * 60, "\\n \\ \\'", "-v", "hello", "hello", "-", "a\0b", "#1", "&", "~"]


def c58(s):
    global E
    w = ros.new_world(s)
    s.oversleep = s.pick([0, 0, 4 * MS])
    E = Espeak(s)
    w.must_init = True
    plans = []
    nconn = 1 + s.pick([0, 0, 1, 2])
    for c in range(nconn):
        t, plan = 0, []
        for i in range(s.choose(6)):
            t += s.pick([0, 0, 1, 20, 300]) * MS
            text = TEXTS[s.choose(len(TEXTS))]
            if s.chance(50):
                text += f" ({c}.{i})"
            plan.append((t, text))
        plans.append(plan)
    got = [[] for _ in plans]         # [begin, end, text] per delivered message
    early = s.chance(15)
    subs, threads = [], []

    def connection(c, sub):
        # nothing comes before the node is one
        while not w.initialised and not w.shutdown:
            s.sleep(5 * MS)
        t0 = s.now + (s.choose(3) * 5 * MS)
        plan = list(plans[c])
        while plan and not w.shutdown:
            t = t0 + plan[0][0]
            if t > s.now:
                s.sleep(t - s.now)
            batch = []
            while plan and t0 + plan[0][0] <= s.now:
                batch.append(plan.pop(0)[1])
            q = sub.queue_size
            if q and len(batch) > q:     # rospy keeps the newest ones
                batch = batch[-q:]
                s.probe("dropped_by_queue")
            for text in batch:
                m = ros.String()
                m.data = text
                rec = [s.now, None, text]
                got[c].append(rec)
                s.log("deliver", c, repr(text))
                sub.deliver(m)
                rec[1] = s.now
            s.yield_point()
        threads_done.append(c)

    threads_done = []

    def on_sub(sub):
        subs.append(sub)
        s.check(w.resolve(sub.name) == w.resolve("speak"), "topic", lambda: f"subscribed to {sub.name}")
        for c in range(nconn):
            threads.append(s.go(connection, c, sub, name=f"connection {c}"))
    w.on_subscribe = on_sub
    s.start_preempting(stall_ns=s.pick([0, 0, 5 * MS]))
    s.max_steps = 600_000
    ended = []
    before = set(threading.enumerate())

    def node():
        exec(CODE, {"__name__": "__main__", "__file__": SCRIPT, "__builtins__": __builtins__})
        while not w.shutdown and any(t.is_alive() and not t.daemon and t not in before for t in threading.enumerate()):
            s.sleep(20 * MS)         # the interpreter waits for these
        s.check(w.shutdown, "ended-early", "the node ended although ROS was not shut down")
        ended.append(s.now)
    threads.append(s.go(node, name="node"))
    if early:
        w.shutdown_at = s.now + s.choose(16) * 40 * MS
        s.go(w.stopper, name="shutdown")
    def pending():
        return not subs or len(threads_done) < nconn
    ok = s.wait_until(lambda: not pending() or w.shutdown, 60_000 * MS, 20 * MS)
    s.check(ok, "stuck", lambda: "messages are not taken any more: " + ", ".join(f"{t.name}:{t.waiting}" for t in threads if not t.done))
    s.sleep(100 * MS)
    # whoever speaks later than it takes the message gets its time
    s.wait_until(lambda: w.shutdown or not missing(got, E), 20_000 * MS, 50 * MS)
    s.wait_until(lambda: all(r[1] is not None or r[0] is None for r in E.said), 20_000 * MS, 50 * MS)
    early = w.shutdown
    judge(s, got, E, plans, early)
    if not w.shutdown:
        w.stop()
    ok = s.wait_until(lambda: bool(ended), 5_000 * MS, 50 * MS)
    s.check(ok, "shutdown", "the node does not end although ROS was shut down")
    n = sum(map(len, got))
    if n:
        s.probe("messages")
    if any(a[0] < b[1] and b[0] < a[1] for x in range(nconn) for y in range(x) for a in got[x] for b in got[y] if a[1] and b[1]):
        s.probe("overlapping_senders")


def missing(got, e):
    have = {}
    for b, en, t, ok in e.said:
        have[t] = have.get(t, 0) + 1
    for when, t in e.tried:
        have[t] = have.get(t, 0) + 1
    slack = have.get(None, 0)
    for g in got:
        for r in g:
            if "\0" in r[2]:
                continue
            if have.get(r[2], 0) <= 0 < slack:
                slack -= 1
                continue
            if have.get(r[2], 0) <= 0:
                return r[2]
            have[r[2]] -= 1
    return None


def judge(s, got, e, plans, early):
    want, nul = {}, set()
    for g in got:
        for r in g:
            if "\0" not in r[2]:
                want[r[2]] = want.get(r[2], 0) + 1
            else:
                nul.add(r[2])        # no argument of a program can hold it
    fine, bad = {}, {}
    for b, en, t, ok in e.said:
        s.check(t in want or t in nul, "wrong-text", lambda: f"espeak was made to say {t!r}, the messages were {list(want)}")
        (fine if ok else bad)[t] = (fine if ok else bad).get(t, 0) + 1
    for when, t in e.tried:
        s.check(t is None or t in want or t in nul, "wrong-text", lambda: f"espeak was to say {t!r}, the messages were {list(want)}")
        bad[t] = bad.get(t, 0) + 1
    slack = bad.get(None, 0)         # refused before it got its text
    for t, n in want.items():
        s.check(fine.get(t, 0) <= n, "repeated", lambda: f"{t!r} was received {n} times and spoken {fine.get(t)} times")
        if not early:
            s.check(fine.get(t, 0) + bad.get(t, 0) + slack >= n, "not-spoken", lambda: f"{t!r} was received {n} times and espeak was asked {fine.get(t, 0) + bad.get(t, 0)} times to say it")
            if not bad.get(t) and not bad.get(None):
                s.check(fine.get(t, 0) == n, "not-spoken", lambda: f"{t!r} was received {n} times and spoken {fine.get(t, 0)} times")
    if not early:
        # everything sent was delivered (a queue of the subscriber may not throw messages away)
        for g, p in zip(got, plans):
            s.check([r[2] for r in g] == [t for _, t in p], "dropped", lambda: f"a sender sent {[t for _, t in p]}, its subscriber took {[r[2] for r in g]}")
    # one sender's texts are spoken one after the other, in order (only texts that name one message)
    for g in got:
        l = [r[2] for r in g if want.get(r[2]) == 1]
        at = [[x for x in e.said if x[2] == t] for t in l]
        flat = [x[0] for x in at if x]
        s.check(all(x[0][0] <= y[0][0] for x, y in zip([a for a in at if a], [a for a in at if a][1:])), "order", lambda: f"texts sent in the order {l} were spoken at {flat}")
        for x, y in zip([a for a in at if a], [a for a in at if a][1:]):
            s.check(x[-1][1] is not None and x[-1][1] <= y[0][0], "overlap", lambda: f"{y[0][2]!r} was begun while {x[-1][2]!r} was still being spoken")


SCENARIOS = {"C58": c58}
