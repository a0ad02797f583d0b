"""Simulated filesystem world for the installation scripts: real processes whose every
file operation waits for the decision of this (seeded) controller, plus a model of what
a power loss leaves on the disk."""
import errno
import os
import selectors
import shutil
import signal
import socket
import stat
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c")
LIB = os.path.join(ROOT, "build", "ntnfs.so")
REPO = os.environ.get("NTN_REPO", "/repo")
PY = "/opt/venv/bin/python"

ERRNOS = dict(open=("EACCES", "EMFILE", "EIO", "EROFS", "ENOSPC"), read=("EIO",),
              write=("ENOSPC", "EIO", "EDQUOT"), ftruncate=("EIO", "EFBIG"), fsync=("EIO", "ENOSPC"),
              close=("EIO", "ENOSPC"), rename=("EACCES", "ENOSPC", "EIO", "EROFS"), chmod=("EPERM", "EROFS"),
              unlink=("EACCES", "EBUSY"), mkdir=("ENOSPC", "EACCES"), symlink=("EACCES", "ENOSPC", "EROFS"),
              link=("EPERM", "EMLINK"), truncate=("EIO",), chown=("EPERM",), utimens=("EPERM",), sync=())


class HarnessError(Exception):
    pass


def build_shim():
    if os.path.exists(LIB) and os.path.getmtime(LIB) >= os.path.getmtime(SRC):
        return
    os.makedirs(os.path.dirname(LIB), exist_ok=True)
    tmp = f"{LIB}.{os.getpid()}"
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, SRC, "-ldl"], check=True)
    os.replace(tmp, LIB)


def opclass(op):
    return "open" if op.startswith("open") else op


class Conn:
    def __init__(self, sock):
        self.sock = sock
        self.msg = None


class Op:
    """One file operation of one process"""

    def __init__(self, n, proc, op, size, path, path2, ino):
        self.n, self.proc, self.op, self.size, self.path, self.path2, self.ino = n, proc, op, size, path, path2, ino

    def __repr__(self):
        return f"{self.proc}:{self.op} {self.path}"


class World:
    """A scratch directory with a tree `root` below which everything is simulated"""

    def __init__(self):
        build_shim()
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="ntnsim-"))
        self.root = os.path.join(self.base, "root")
        os.mkdir(self.root)
        self.ctl = os.path.join(self.base, "ctl")
        self.held = {}

    def release(self):
        for fd in self.held.values():
            os.close(fd)
        self.held = {}

    def close(self):
        self.release()
        if self.base.startswith("/") and "ntnsim-" in self.base:
            shutil.rmtree(self.base, ignore_errors=True)

    # ------------------------------------------------------------ tree
    def put(self, rel, data, mode=0o644):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        os.chmod(p, mode)

    def tree(self):
        """relative path -> (kind, inode, mode, content or target)"""
        out = {}
        for d, dirs, files in os.walk(self.root):
            for n in dirs+files:
                p = os.path.join(d, n)
                st = os.lstat(p)
                r = os.path.relpath(p, self.root)
                if stat.S_ISLNK(st.st_mode):
                    out[r] = ("l", st.st_ino, 0, os.readlink(p))
                elif stat.S_ISDIR(st.st_mode):
                    out[r] = ("d", st.st_ino, stat.S_IMODE(st.st_mode), None)
                else:
                    with open(p, "rb") as f:
                        out[r] = ("f", st.st_ino, stat.S_IMODE(st.st_mode), f.read())
                        # an inode number stands for one file: keep it from being used again
                        if st.st_ino not in self.held:
                            self.held[st.st_ino] = os.dup(f.fileno())
        return out

    def load(self, tree):
        """Make `tree` the content of the disk"""
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        links = {}
        for r in sorted(tree):
            k, ino, mode, c = tree[r]
            p = os.path.join(self.root, r)
            if k == "d":
                os.makedirs(p, exist_ok=True)
                os.chmod(p, mode)
            elif k == "l":
                os.symlink(c, p)
            elif ino in links and ino:
                os.link(links[ino], p)
            else:
                with open(p, "wb") as f:
                    f.write(c)
                os.chmod(p, mode)
                links[ino] = p

    # ------------------------------------------------------------ runs
    def run(self, cmds, decide, choose=None, extra_env=None, timeout=60, on_state=None, scan=True):
        """Runs the commands concurrently. `decide(op)` answers each operation with
        "P", "E <errno>", "S <n>", "K", "T <n>" or "I"; `choose(ready)` picks the
        process that moves next."""
        try:
            os.unlink(self.ctl)
        except FileNotFoundError:
            pass
        ls = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        ls.bind(self.ctl)
        ls.listen(64)
        ls.setblocking(False)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": self.root, "PYTHONHASHSEED": "0",
               "PYTHONDONTWRITEBYTECODE": "1", "TMPDIR": os.path.join(self.root, "tmp"),
               "LD_PRELOAD": LIB, "NTNFS_ROOT": self.root, "NTNFS_CTL": self.ctl}
        env.update(extra_env or {})
        sel = selectors.DefaultSelector()
        sel.register(ls, selectors.EVENT_READ, "listen")
        procs, fds = [], []
        self.release()
        res = Result(self)
        if scan:
            res.begin(self.tree())
        for i, c in enumerate(cmds):
            p = subprocess.Popen(c, env=env, cwd=self.root, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE if os.environ.get("NTN_DEBUG") is None else None,
                                 start_new_session=True)
            procs.append(p)
            fd = os.pidfd_open(p.pid)
            fds.append(fd)
            sel.register(fd, selectors.EVENT_READ, ("exit", i))
        pids = {p.pid: i for i, p in enumerate(procs)}
        alive = set(range(len(procs)))
        conns = {}
        errs = [b""]*len(procs)
        for p in procs:
            if p.stderr:
                os.set_blocking(p.stderr.fileno(), False)
                sel.register(p.stderr, selectors.EVENT_READ, ("err", pids[p.pid]))
        pending = {}        # proc -> (conn, Op)
        current = {}
        count = 0
        killed = set()
        t0 = time.monotonic()

        def drain(i):
            try:
                while True:
                    b = os.read(procs[i].stderr.fileno(), 65536)
                    if not b:
                        return
                    errs[i] += b
            except BlockingIOError:
                pass

        try:
            while alive:
                # every live process is waiting for a decision (or the only one is)
                if pending and (len(procs) == 1 or all(i in pending for i in alive)):
                    ready = sorted(pending)
                    i = ready[0] if choose is None or len(ready) == 1 else choose(ready)
                    c, op = pending[i].pop(0)
                    if not pending[i]:
                        del pending[i]
                    if i in killed:
                        continue
                    a = decide(op)
                    if a[0] in "KT":
                        killed.add(i)
                    res.ops.append((op, a))
                    current[i] = op
                    try:
                        c.sock.send(a.encode())
                    except (BrokenPipeError, ConnectionResetError):
                        continue        # the process is gone
                    if a[0] in "KT" and len(procs) == 1:
                        # the machine or the whole session goes down
                        time.sleep(0)
                        try:
                            if a[0] == "T":
                                procs[i].wait(timeout=0.001)
                        except subprocess.TimeoutExpired:
                            pass
                        self._dead_end(c)
                        try:
                            os.killpg(procs[i].pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                    continue
                if time.monotonic()-t0 > timeout:
                    raise HarnessError("simulated process hangs")
                for k, _ in sel.select(timeout=1):
                    if k.data == "listen":
                        s, _ = ls.accept()
                        c = Conn(s)
                        conns[s.fileno()] = c
                        sel.register(s, selectors.EVENT_READ, ("conn", c))
                        continue
                    kind, x = k.data
                    if kind == "err":
                        if not self._drain1(x, procs, errs):
                            sel.unregister(procs[x].stderr)
                    elif kind == "exit":
                        procs[x].wait()
                        sel.unregister(fds[x])
                        alive.discard(x)
                        pending.pop(x, None)
                        if x in current and scan:
                            res.state(self.tree(), current.pop(x), None)
                            if on_state:
                                on_state(res.states[-1])
                    else:
                        try:
                            m = x.sock.recv(16384)
                        except ConnectionResetError:
                            m = b""
                        if not m:
                            sel.unregister(x.sock)
                            x.sock.close()
                            continue
                        f = m.decode(errors="surrogateescape").split(" ", 4)
                        i = pids.get(int(f[1]), 0)
                        if f[0] == "X":
                            res.outside.append((f[2], f[4]))
                            self._answer(x)
                        elif f[0] == "A":
                            op = current.pop(i, None)
                            if scan and op is not None and op.op != "read":
                                res.state(self.tree(), op, int(f[2]))
                                if on_state:
                                    on_state(res.states[-1])
                            self._answer(x)
                        else:
                            a, b, ino = f[4].split("\t")
                            rel = lambda q: os.path.relpath(q, self.root) if q.startswith(self.root) else q
                            op = Op(count, i, f[2], int(f[3]), rel(a), rel(b), int(ino))
                            count += 1
                            pending.setdefault(i, []).append((x, op))
        finally:
            for i, p in enumerate(procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                if p.stderr:
                    drain(i)
                    p.stderr.close()
                os.close(fds[i])
            sel.close()
            for c in conns.values():
                c.sock.close()
            ls.close()
        res.rc = [p.returncode for p in procs]
        res.err = [e.decode(errors="replace") for e in errs]
        res.killed = killed
        if any(r in (97, 98, 99) for r in res.rc):
            raise HarnessError(f"shim lost its controller: {res.rc}")
        if scan:
            res.final = self.tree()
        return res

    def _drain1(self, i, procs, errs):
        try:
            b = os.read(procs[i].stderr.fileno(), 65536)
        except BlockingIOError:
            return True
        errs[i] += b
        return bool(b)

    def _answer(self, c):
        try:
            c.sock.send(b"P")
        except (BrokenPipeError, ConnectionResetError):
            pass

    def _dead_end(self, c):
        """Wait until the process that was told to die is gone"""
        c.sock.settimeout(2)
        try:
            while c.sock.recv(16384):
                pass
        except (ConnectionResetError, OSError):
            pass
        c.sock.setblocking(False)


class Result:
    def __init__(self, world):
        self.w = world
        self.ops = []
        self.states = []
        self.outside = []
        self.synced = {}
        self.latest = {}
        self.dirsync = 0

    def begin(self, tree):
        self.states = [tree]
        for r, (k, ino, mode, c) in tree.items():
            if k == "f":
                self.synced[ino] = c
                self.latest[ino] = c

    def state(self, tree, op, ret):
        self.states.append(tree)
        for r, (k, ino, mode, c) in tree.items():
            if k == "f":
                self.latest[ino] = c
        if ret is not None and ret >= 0:
            if op.op == "fsync":
                if op.ino in self.latest:
                    self.synced[op.ino] = self.latest[op.ino]
                else:
                    self.dirsync = len(self.states)-1
            elif op.op == "sync":
                self.synced.update(self.latest)
                self.dirsync = len(self.states)-1

    def power_loss(self, rnd):
        """One state the disk may be in after a power loss now: the names as of some
        moment since the last directory sync, unsynced data in full, in part, zeroed or not"""
        j = rnd.randint(self.dirsync, len(self.states)-1)
        if rnd.random() < .5:
            j = len(self.states)-1
        out = {}
        lost = 0
        choice = {}
        for r, (k, ino, mode, c) in self.states[j].items():
            if k == "f":
                new = self.latest[ino]
                if self.synced.get(ino) != new:
                    if ino not in choice:
                        old = self.synced.get(ino, b"")
                        choice[ino] = [old, b"", new[:len(new)//2], new[:rnd.randint(0, len(new))],
                                       bytes(len(new)), new][rnd.randrange(6)]
                    c = choice[ino]
                    lost += c != new
                else:
                    c = new
            out[r] = (k, ino, mode, c)
        return out, lost, len(self.states)-1-j
