"""Helpers of the demonstrations: compile the working tree in a scratch folder,
run the server on the loopback with a scratch site, talk to it."""
import atexit, concurrent.futures, os, shutil, signal, socket, subprocess, sys, tempfile, time

REPO = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))
SCRATCH = tempfile.mkdtemp(prefix="demo-")
os.chmod(SCRATCH, 0o755)
atexit.register(shutil.rmtree, SCRATCH, True)
FLAGS = ["-g1", "-O1", "-w", "-fno-common", "-fno-omit-frame-pointer", "-DHAVE_CONFIG_H", "-DUNIX_LIB", "-I" + HERE, "-I" + SCRATCH]
ASAN = ["-fsanitize=address"]


def die(msg):
    print("FAILED:", msg)
    sys.exit(1)


def sources(sub):
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, sub)):
        dirs[:] = [d for d in dirs if d not in ("jni", ".libs")]
        out += [os.path.join(base, f) for f in sorted(files) if f.endswith(".c") and "win32" not in f]
    return sorted(out)


def cc(args):
    p = subprocess.run(["gcc"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:])
        sys.exit(77)


def compile_all(tops, asan, extra=()):
    jobs = []
    for top in tops:
        for s in sources(top):
            o = os.path.join(SCRATCH, "%d.o" % (abs(hash(s)) % 10 ** 12))
            jobs.append((FLAGS + list(extra) + (ASAN if asan else []) + ["-I" + os.path.join(REPO, top), "-c", s, "-o", o], o))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: cc(j[0]), jobs))
    return [o for _, o in jobs]


LIBS = ["-lpcre", "-lssl", "-lcrypto", "-lpthread", "-ldl", "-lm"]


def program(source, asan=True, tops=("src/viriatum_commons",)):
    """compiles a C program against the library and runs it, returns (code, output)"""
    objs = compile_all(tops, asan)
    exe = os.path.join(SCRATCH, "program")
    cc(FLAGS + (ASAN if asan else []) + ["-I" + os.path.join(REPO, "src"), os.path.join(HERE, source)] + objs + ["-o", exe] + LIBS)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99")
    p = subprocess.run([exe], cwd=SCRATCH, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
    return p.returncode, p.stdout


class Server:
    def __init__(self, ini, files, asan=True, sndbuf=0, short=0):
        os.chdir(SCRATCH)
        for d in ("cfg", "www", "mods"):
            os.makedirs(d, exist_ok=True)
        for name, data in files.items():
            os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
            open(name, "wb").write(data if isinstance(data, bytes) else data.encode())
        open("cfg/viriatum.ini", "w").write(ini)
        if not os.path.exists("server"):
            objs = compile_all(("src/viriatum_commons", "src/viriatum"), asan)
            if sndbuf:
                # accepted sockets get a small send buffer
                open("wrap.c", "w").write("#include <sys/socket.h>\nint __real_accept(int, void *, void *);\n"
                    "int __wrap_accept(int f, void *a, void *l) { int v = %d, s = __real_accept(f, a, l);"
                    " if(s >= 0) setsockopt(s, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); return s; }\n" % sndbuf)
                objs += ["wrap.c", "-Wl,--wrap=accept"]
            if short:
                # a write takes that many bytes at most, and what is left has to wait for the next event
                open("short.c", "w").write("""#include <sys/socket.h>
#include <sys/epoll.h>
static struct epoll_event last[65536]; static int poll_fd[65536];
int __real_epoll_ctl(int, int, int, struct epoll_event *);
int __wrap_epoll_ctl(int e, int op, int s, struct epoll_event *v) { if(v && s < 65536) { last[s] = *v; poll_fd[s] = e; } return __real_epoll_ctl(e, op, s, v); }
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int s, const void *b, size_t n, int f) {
    ssize_t r = __real_send(s, b, n > SHORT ? SHORT : n, f);
    if(n > SHORT && s < 65536 && poll_fd[s]) { __real_epoll_ctl(poll_fd[s], EPOLL_CTL_MOD, s, &last[s]); }
    return r; }
""".replace("SHORT", str(short)))
                objs += ["short.c", "-Wl,--wrap=send", "-Wl,--wrap=epoll_ctl"]
            cc((ASAN if asan else []) + objs + ["-o", "server"] + LIBS)
        self.start()

    def start(self):
        for _ in range(20):
            s = socket.socket(); s.bind(("127.0.0.1", 0)); self.port = s.getsockname()[1]; s.close()
            self.log = open("log", "w+b")
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:detect_odr_violation=0")
            self.p = subprocess.Popen([os.path.join(SCRATCH, "server"), "--port=%d" % self.port, "--host=127.0.0.1"], cwd=SCRATCH, env=env, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            atexit.register(self.stop)
            end = time.time() + 10
            while time.time() < end and self.p.poll() is None:
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    return
                except OSError:
                    time.sleep(0.05)
            self.stop()
        die("the server does not start: " + open("log", errors="replace").read()[-500:])

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def alive(self):
        time.sleep(0.1)
        if self.p.poll() is not None:
            die("the server is gone (%s): %s" % (self.p.returncode, open("log", errors="replace").read()[-1500:]))

    def connect(self, rcvbuf=None):
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(5)
        s.connect(("127.0.0.1", self.port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s

    def talk(self, pieces, idle=0.6, gap=0.15):
        """sends the pieces one by one, returns (all received, closed by the server)"""
        s = self.connect()
        if isinstance(pieces, (bytes, str)):
            pieces = [pieces]
        for i, p in enumerate(pieces):
            if i:
                time.sleep(gap)
            try:
                s.sendall(p.encode() if isinstance(p, str) else p)
            except OSError:
                break
        got, closed = b"", False
        s.settimeout(idle)
        while True:
            try:
                d = s.recv(65536)
            except socket.timeout:
                break
            except OSError:
                closed = True
                break
            if not d:
                closed = True
                break
            got += d
        s.close()
        return got, closed
