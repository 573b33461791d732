"""Client side of harness/proto.h."""
import os, shutil, struct, subprocess, tempfile, signal

ASAN = ("detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:"
        "handle_abort=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d:quarantine_size_mb=8:detect_odr_violation=0:"
        "handle_segv=1:allow_user_segv_handler=0:soft_rss_limit_mb=3000")

class Died(Exception):
    def __init__(self, res):
        self.res = res
        Exception.__init__(self, res.describe())

class DriverError(Exception):
    pass

class Result:
    def __init__(self, status, log, blobs):
        self.status, self.log = status, log
        self.complete = bool(blobs) and blobs[-1] == b"@END"
        self.blobs = blobs[:-1] if self.complete else blobs
        self.ok = status == 0 and self.complete

    def describe(self):
        if os.WIFSIGNALED(self.status):
            s = "killed by signal %d (%s)" % (os.WTERMSIG(self.status), signal.Signals(os.WTERMSIG(self.status)).name)
        else:
            s = "exited with %d" % os.WEXITSTATUS(self.status)
            if os.WEXITSTATUS(self.status) == 66:
                s = "AddressSanitizer report"
        lines = [l for l in self.log.decode("utf-8", "replace").splitlines() if l.strip()]
        pick = [l for l in lines if "ERROR: AddressSanitizer" in l or "Assertion" in l or "SUMMARY" in l or "/repo/src" in l][:8]
        return s + ": " + " | ".join(pick or lines[-3:])

    @property
    def cpu(self):
        return os.WIFSIGNALED(self.status) and os.WTERMSIG(self.status) in (signal.SIGXCPU, signal.SIGKILL)

class Driver:
    def __init__(self, binary, cpu=20, fill=0xbe):
        self.base = tempfile.mkdtemp(prefix="bxv-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.binary, self.cpu, self.fill = binary, cpu, fill
        self.p = None

    def start(self):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
               "ASAN_OPTIONS": ASAN % (self.fill & 255), "HOME": self.base}
        if self.fill > 255:     # pseudo-random content of fresh memory
            env["DRV_RAND"] = str(self.fill)
        if "DRV_LOG" in os.environ:
            env["DRV_LOG"] = "1"
        self.p = subprocess.Popen([self.binary, self.base, str(self.cpu)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    @staticmethod
    def enc(x):
        if isinstance(x, bytes):
            return x
        if isinstance(x, str):
            return x.encode("utf-8", "surrogatepass")
        if x is None:
            return b"~"
        return str(int(x)).encode()

    def raw(self, *args):
        if self.p is None:
            self.start()
        body = b"".join(struct.pack("<I", len(b)) + b for b in map(self.enc, args))
        try:
            self.p.stdin.write(struct.pack("<I", len(body)) + body)
            self.p.stdin.flush()
            n = self._rd(4)
            data = self._rd(struct.unpack("<I", n)[0])
        except (OSError, EOFError) as e:
            raise DriverError("driver ended: %r" % e)
        status, ln = struct.unpack("<II", data[:8])
        log = data[8:8 + ln]
        blobs, p = [], 8 + ln
        while p + 4 <= len(data):
            k = struct.unpack("<I", data[p:p + 4])[0]
            blobs.append(data[p + 4:p + 4 + k])
            p += 4 + k
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) in (97, 98):
            raise DriverError("driver refused request (%d) %r" % (os.WEXITSTATUS(status), args[0]))
        return Result(status, log, blobs)

    def call(self, *args):
        r = self.raw(*args)
        if not r.ok:
            raise Died(r)
        return r.blobs

    def _rd(self, n):
        d = self.p.stdout.read(n)
        if len(d) != n:
            raise EOFError()
        return d

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()
            self.p = None
        shutil.rmtree(self.base, ignore_errors=True)
