"""Talks to harness/slatdrv.cpp (and other line-oriented harnesses)."""
import math, os, select, subprocess, tempfile, threading


class DriverDied(Exception):
    pass


class Driver:
    """one command per line in, one result line per command out (descriptor 3)"""
    def __init__(self, exe, env=None, timeout=60, args=()):
        self.timeout = timeout
        r, w = os.pipe()
        self.err = tempfile.TemporaryFile()
        e = dict(os.environ, OMP_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77")
        if env:
            e.update(env)
        sh = 'exec 3>&%d %d>&-; exec "$0" "$@"' % (w, w)
        self.p = subprocess.Popen(["bash", "-c", sh, exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err,
                                  pass_fds=[w], env=e)
        os.close(w)
        self.r, self.buf = r, b""

    def _line(self):
        while b"\n" not in self.buf:
            pl = select.poll()
            pl.register(self.r, select.POLLIN | select.POLLHUP)
            ok = pl.poll(self.timeout * 1000)
            if not ok:
                self.kill()
                raise DriverDied("no answer within %ds" % self.timeout)
            d = os.read(self.r, 65536)
            if not d:
                self.p.wait()
                raise DriverDied("exit %s: %s" % (self.p.returncode, self.stderr()))
            self.buf += d
        l, _, self.buf = self.buf.partition(b"\n")
        return l.decode()

    def stderr(self, n=2500):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")[:n]

    def cmd(self, line):
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p.wait()
            raise DriverDied("exit %s: %s" % (self.p.returncode, self.stderr()))
        return self._line()

    def batch(self, lines):
        """all commands at once; the answers of those that were answered, and the reason if not all were"""
        data = ("\n".join(lines) + "\n").encode()
        def feed():
            try:
                self.p.stdin.write(data)
                self.p.stdin.flush()
            except (BrokenPipeError, ValueError, OSError):
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        out = []
        for _ in lines:
            try:
                out.append(self._line())
            except DriverDied as e:
                return out, str(e)
        t.join()
        return out, None

    def close(self):
        """ends the program; returns what went wrong while it ended, if anything"""
        try:
            self.p.stdin.close()
        except OSError:
            pass
        bad = None
        try:
            if self._line() != "END":
                bad = "no END"
        except DriverDied as e:
            bad = str(e)
        try:
            self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            bad = "did not end"
        if self.p.returncode and not bad:
            bad = "exit %s: %s" % (self.p.returncode, self.stderr())
        os.close(self.r)
        self.err.close()
        return bad

    def kill(self):
        self.p.kill()
        self.p.wait()

    def forget(self):
        """ends the program, however it is"""
        self.kill()
        for c in (self.p.stdin.close, lambda: os.close(self.r), self.err.close):
            try:
                c()
            except OSError:
                pass


def tokens(s):
    out = []
    for t in s.split():
        try:
            out.append(float(t))
        except ValueError:
            out.append(t)
    return out


def close(a, b, rel=1e-9, absol=1e-12):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= absol + rel * max(abs(a), abs(b))


def same(s1, s2, rel=1e-9, absol=1e-12):
    if s1 == s2:
        return True
    a, b = tokens(s1), tokens(s2)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif not close(x, y, rel, absol):
            return False
    return True
