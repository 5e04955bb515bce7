"""C19: sessions of Python calls, decided by the simulator (module simpy), judged against models.

Nothing here may depend on anything but simpy's draws.
"""
import gc
import warnings

import numpy as np
import pedsp
import simpy as S

warnings.simplefilter("ignore")
np.seterr(all="ignore")
F32, F64 = np.dtype("float32"), np.dtype("float64")
HUGE = 1 << 40


def fail(cls, msg):
    S.violation(cls, msg)


def check(cond, cls, msg):
    if not cond:
        fail(cls, msg() if callable(msg) else msg)


def call(fn, *args, **kw):
    """Result of a call: ('ok', value) or ('exc', exception); SystemError means a broken wrapper."""
    try:
        return "ok", fn(*args, **kw)
    except SystemError as e:
        fail("system-error", "%r" % (e,))
    except (KeyboardInterrupt, SystemExit) as e:
        fail("interpreter", "%r" % (e,))
    except Exception as e:  # noqa: BLE001
        return "exc", e.with_traceback(None)


def ok(fn, *args, **kw):
    k, v = call(fn, *args, **kw)
    check(k == "ok", "raised", lambda: "%s raised %r" % (getattr(fn, "__name__", fn), v))
    return v


def digest(b):
    import zlib
    return "%08x" % zlib.crc32(bytes(b))


class Kept:
    """Arrays handed out or handed in earlier must never change behind the caller's back."""

    def __init__(self):
        self.items = []

    def add(self, a, what):
        if len(self.items) >= 24:
            self.items.pop(S.draw(len(self.items)))
        self.items.append((a, a.tobytes(), what))

    def verify(self):
        for a, b, what in self.items:
            check(a.tobytes() == b, "array-changed", "%s changed after the call that %s" % (what[0], what[1]))


def values(n, counter):
    """n distinct values in (-1, 1), exact in float32."""
    i = np.arange(counter, counter + n, dtype=np.int64)
    return ((i * 7919 + 13) % 16777213 - 8388606) / 8388608.0


def result_array(r, dtype, what):
    check(type(r) is np.ndarray, "result-type", "%s returned %r" % (what, type(r)))
    check(r.dtype == dtype, "result-dtype", "%s returned an array of %s" % (what, r.dtype))
    check(r.ndim == 1, "result-shape", "%s returned shape %r" % (what, r.shape))
    return r


class World:
    def __init__(self):
        self.kept = Kept()
        self.counter = S.draw(1000)
        self.files = []
        self.serial = 0
        self.env = {}
        self.seeks_fail = False

    # ---- arrays of every kind -----------------------------------------------------------
    def array(self, n, dtype, amplitude=1.0):
        """An array of n elements and what it holds as a contiguous array of `dtype`."""
        v = (values(n, self.counter) * amplitude).astype(dtype)
        self.counter += n
        k = S.draw(14)
        if k == 9:  # integers
            v = np.round(v.astype("float64") * 100)
        if k < 4:
            a = v.copy()
        elif k == 4:
            base = np.full(2 * n + 1, 99.5, dtype)
            base[0:2 * n:2] = v
            a = base[0:2 * n:2]
        elif k == 5:
            a = v[::-1].copy()[::-1]
        elif k == 6:
            a = v.astype(dtype.newbyteorder())
        elif k == 7:
            raw = b"x" + v.tobytes() + b"y" * 7
            a = np.frombuffer(raw, dtype, n, 1)
        elif k == 8:
            a = v.copy()
            a.setflags(write=False)
        elif k == 9:
            a = v.astype(("int8", "int16", "int32", "int64", "uint8")[S.draw(5)])
        elif k == 10:
            a = v.astype(F64 if dtype == F32 else F32)
        elif k == 11:
            m = np.full((n, 3), 77.25, dtype)
            m[:, 1] = v
            a = m[:, 1]
        elif k == 12:
            a = np.broadcast_to(v[:1], (n,)) if n else v.copy()
        else:
            a = v.astype((np.longdouble, "float16", object)[S.draw(3)])
        if k >= 4:
            S.count("probe.array-kind-%d" % k)
        return a, np.ascontiguousarray(a.astype(dtype))

    def no_array(self, dtype):
        """Something that is no one-dimensional array of numbers."""
        k = S.draw(8)
        S.count("probe.no-array")
        return (None, [0.5, 0.25], "text", np.zeros((2, 3), dtype), np.array(0.5, dtype), np.zeros((4, 1), dtype),
                3.5, np.array(["a", "b"]))[k]

    def consume(self, fn, a, what):
        """Calls fn(a); the array must come out unchanged."""
        before = a.tobytes()
        base = a
        while isinstance(base.base, np.ndarray):
            base = base.base
        whole = base.tobytes()
        r = call(fn, a)
        check(a.tobytes() == before and base.tobytes() == whole, "input-changed", "%s changed its input" % what)
        self.kept.add(a, ("an input array", "read it"))
        return r


def wrong(self_fn, *args):
    """A call that cannot be served: must raise, not crash."""
    k, v = call(self_fn, *args)
    S.event("  wrong call -> %s" % (type(v).__name__ if k == "exc" else "ok"))
    check(k == "exc", "accepted", lambda: "a call with %s was accepted" % (", ".join(type(x).__name__ for x in args)))


# ---- oscillators ------------------------------------------------------------------------
class Osc:
    names = ("Sinusoidal", "Square", "Sawtooth", "Triangular")

    def __init__(self, w):
        self.w = w
        self.kind = S.draw(4)
        amp, sr, f = S.real(-4, 4), (8000.0, 44100.0, 3.0)[S.draw(3)], S.real(0.5, 5000)
        x = S.real(0, 1) if self.kind else S.real(-7, 7)
        cls = getattr(pedsp.oscillator, self.names[self.kind])
        args = (amp, sr, f) if self.kind == 3 else (amp, sr, f, x)
        if S.chance(100):
            wrong(cls, *args[:-1])
            wrong(cls, "x", *args[1:])
        self.o = ok(cls, *args)
        self.t = S.Osc(self.kind, amp, sr, f, x)
        S.event("osc %s %r" % (self.names[self.kind], args))
        self.accessors()

    def accessors(self):
        for name in ("phase", "amplitude", "frequency", "timestamp", "sample_rate") + \
                (("duty",) if self.kind == 1 else ("width",) if self.kind >= 2 else ()):
            got, want = ok(getattr(self.o, name)), self.t.get(name)
            check(type(got) is float and (got == want or got != got and want != want), "accessor",
                  "%s() = %r, the core object has %r" % (name, got, want))

    def op(self):
        k = S.draw(8)
        if k < 4:
            n = large() if S.chance(15) else S.size_near(3000, [0, 1, 128, 256])
            r = ok(self.o.generate, N=n) if S.chance(200) else ok(self.o.generate, n)
            result_array(r, F64, "generate")
            S.event("osc generate %d -> %s" % (n, digest(r.tobytes())))
            check(len(r) == n, "result-length", "generate(%d) returned %d samples" % (n, len(r)))
            check(r.tobytes() == self.t.generate(n), "result-samples", "generate(%d) differs from the core's samples" % n)
            self.w.kept.add(r, ("an array from generate", "returned it"))
            S.time(n / max(1.0, self.t.get("sample_rate")))
            S.cover(self.kind * 8 + min(n, 7))
        elif k < 7:
            what = S.draw(7)
            name = ("phase", "amplitude", "frequency", "timestamp", "sample_rate", "shape", "reset")[what]
            if name == "reset":
                ok(self.o.reset)
                self.t.set("reset", 0.0)
                S.event("osc reset")
            else:
                if name == "shape":
                    if self.kind == 0:
                        return
                    name = "duty" if self.kind == 1 else "width"
                v = {"phase": S.real(-9, 9), "amplitude": S.real(-5, 5), "frequency": S.real(0.01, 9000),
                     "timestamp": S.real(-2, 50), "sample_rate": S.real(1, 96000)}.get(name, None)
                if v is None:
                    v = S.real(0, 1)
                ok(getattr(self.o, "set_" + name), v)
                self.t.set(name, v)
                S.event("osc set %s %r" % (name, v))
            self.accessors()
        else:
            wrong(self.o.generate, (-1, -1000, "5", None, 2.5, HUGE)[S.draw(6)])
            wrong(self.o.set_frequency, ("a", None)[S.draw(2)])
            self.accessors()


# ---- filters ----------------------------------------------------------------------------
def large():
    """Sizes on both sides of what a buffer or a loop may take for the end of the world."""
    S.count("probe.large")
    return (4096, 8192, 16384, 32768, 65536)[S.draw(5)] + S.range(-2, 600)


class Filt:
    names = ("MovingAverageFilter", "MovingRmsFilter", "MovingMedianFilter")

    def __init__(self, w):
        self.w = w
        self.kind = S.draw(3)
        n = 1 + S.size_near(40, [1, 7, 8])
        self.cls = getattr(pedsp.filter, self.names[self.kind])
        if S.chance(150):
            wrong(self.cls, (0, -1, "3", None, float("nan"), -0.5, 1e18, HUGE)[S.draw(8)])
        armed = S.chance(150)
        if armed:
            S.arm(S.draw(4))
        k, v = call(self.cls, n)
        hit = S.disarm() if armed else 0
        if hit:
            S.count("fault.alloc")
            S.event("filter constructor without memory -> %s" % type(v).__name__)
            if k == "exc":
                check(isinstance(v, MemoryError), "alloc-error", "a constructor without memory raised %r" % (v,))
                v = ok(self.cls, n)
        else:
            check(k == "ok", "raised", lambda: "%s(%d) raised %r" % (self.cls, n, v))
        self.o, self.n = v, n
        self.t = S.Filt(self.kind, n)
        S.event("filter %s %d" % (self.names[self.kind], n))
        self.size()

    def size(self):
        check(ok(self.o.size) == self.t.size(), "accessor", lambda: "size() = %r, the core has %r" % (self.o.size(), self.t.size()))

    def op(self):
        k = S.draw(9)
        if k < 4:
            n = large() if S.chance(15) else S.size_near(20000, [512, 4096]) if S.chance(40) else S.size_near(400, [0, 1, self.n, 2 * self.n])
            a, want = self.w.array(n, F64, (1, 1, 1, 1e6, 1e-3)[S.draw(5)])
            k, r = self.w.consume(self.o.filter, a, "filter")
            check(k == "ok", "raised", lambda: "filter of %s %d raised %r" % (a.dtype, n, r))
            result_array(r, F64, "filter")
            S.event("filter %d %s strides=%r -> %s" % (n, a.dtype, a.strides, digest(r.tobytes())))
            check(len(r) == n, "result-length", "filter of %d samples returned %d" % (n, len(r)))
            check(r.tobytes() == self.t.filter(want.tobytes()), "result-samples",
                  "filter of %d samples of %s (strides %r) differs from the core's output" % (n, a.dtype, a.strides))
            self.w.kept.add(r, ("an array from filter", "returned it"))
            S.cover(1000 + self.kind * 8 + min(n, 7))
        elif k == 4:
            x = S.real(-2, 2)
            x = (x, int(x * 5), np.float64(x))[S.draw(3)]
            got, want = ok(self.o, x), self.t.call(float(x))
            S.event("filter call %r -> %r" % (x, got))
            check(got == want or got != got and want != want, "result-samples", "filter(%r) = %r, the core gives %r" % (x, got, want))
        elif k == 5:
            n = 1 + S.size_near(40, [self.n - 1, self.n])
            armed = S.chance(200)
            if armed:
                S.arm(S.draw(3))
            k, v = call(self.o.resize, n)
            hit = S.disarm() if armed else 0
            S.event("filter resize %d -> %s" % (n, k))
            if hit:
                S.count("fault.alloc")
            check(k == "ok" or hit and isinstance(v, MemoryError), "raised", lambda: "resize(%d) raised %r" % (n, v))
            if k == "ok":
                self.t.resize(n)
                self.n = n
        elif k == 6:
            ok(self.o.reset)
            self.t.reset()
            S.event("filter reset")
        elif k == 7:
            bad = self.w.no_array(F64)
            wrong(self.o.filter, bad)
        else:
            wrong(self.o.resize, (0, -1, "3", None, 2.5)[S.draw(5)])
            wrong(self.o, ("x", None)[S.draw(2)])
        self.size()


# ---- recordings -------------------------------------------------------------------------
class Enc:
    def __init__(self, w):
        self.w = w
        self.rate = (8000, 44100, 1, 192000)[S.draw(4)]
        self.ch = 1 + S.draw(6)
        if S.chance(100):
            wrong(pedsp.io.Encoder, (-1, 2), 1)
            wrong(pedsp.io.Encoder, 8000, -1)
            wrong(pedsp.io.Encoder, "8000", 1)
        self.o = ok(pedsp.io.Encoder, self.rate, self.ch)
        self.path = None
        self.acked = self.offered = b""
        self.broken = False
        self.hard0 = 0
        w.serial += 1
        self.id = w.serial
        S.event("enc%d new rate=%d channels=%d" % (self.id, self.rate, self.ch))
        self.state()

    def state(self):
        check(ok(self.o.is_open) is (self.path is not None), "is-open", "is_open() = %r" % (self.o.is_open(),))
        check(self.o.channels() == self.ch and self.o.samplerate() == self.rate, "accessor", "encoder attributes changed")

    def finished(self):
        """The recording was closed: its file must hold what was acknowledged."""
        if self.path is None:
            return
        path, self.path = self.path, None
        hard = S.hard() != self.hard0
        opened, ch, rate, frames, data = S.decode(path)
        S.event("enc%d verify %s acked=%d decoded=%d hard=%d" % (self.id, path, len(self.acked) // 4, len(data) // 4, hard))
        if not hard:
            good, pch, prate, bits, raw = S.parse(path)
            check(good and opened, "unreadable", "%s cannot be read after a recording on a healthy disk" % path)
            check((pch, prate, bits) == (self.ch, self.rate, 32), "wrong-format", "channels, rate, bits = %r" % ((pch, prate, bits),))
            check(raw == self.acked, "recording", lambda: "%d samples in the file, %d acknowledged%s" % (
                len(raw) // 4, len(self.acked) // 4, ", contents differ" if len(raw) == len(self.acked) else ""))
            check(data == self.acked, "recording", "the codec reads other samples than were acknowledged")
            if len(self.w.files) < 6:
                self.w.files.append(File(path, True))
                return
        elif self.w.seeks_fail:
            pass  # the codec rewrites its header after seeking: a failed seek is its own affair
        elif opened and self.offered:
            check((ch, rate) == (self.ch, self.rate), "wrong-format", "channels, rate = %r" % ((ch, rate),))
            check(self.offered.startswith(data), "recording", "the file holds samples that were not written")
        if hard and self.acked and not self.w.seeks_fail:
            check(self.acked in S.get(path), "acknowledged-lost", "%d acknowledged samples are not in the file" % (len(self.acked) // 4))
        S.remove(path)

    def op(self):
        k = S.draw(12)
        if self.path is None and k and S.draw(4):
            k = 0
        if k == 0:
            self.w.serial += 1
            path = "/sim/r%d%s.wav" % (self.w.serial, ("", "_a rather long name \u00e9\u4e2d")[S.draw(2)])
            before, acked, offered, broken, hard0 = self.path, self.acked, self.offered, self.broken, self.hard0
            h = S.hard()
            good = ok(self.o.open, path)
            fault = S.hard() != h
            S.event("enc%d open -> %r" % (self.id, good))
            if before is not None:
                self.finished()
            check(good is True or good is False, "result-type", "open returned %r" % (good,))
            check(good or fault, "open-failed", "open failed without a fault")
            if good:
                self.path, self.acked, self.offered, self.broken, self.hard0 = path, b"", b"", False, h
            else:
                S.remove(path)
        elif k < 9:
            if self.broken:
                self.close()
                return
            n = (large() if S.chance(10) else S.size_near(9000, [4096, 8192]) if S.chance(40) else S.size_near(300, [0, 1, 64, 256])) * self.ch
            ragged = self.ch > 1 and S.chance(60)
            if ragged:
                n += 1 + S.draw(self.ch - 1)
            a, want = self.w.array(n, F32)
            k, r = self.w.consume(self.o.write, a, "write")
            check(k == "ok", "raised", lambda: "write of %s %d raised %r" % (a.dtype, n, r))
            S.event("enc%d write %d %s -> %r" % (self.id, n, a.dtype, r))
            check(type(r) is int, "result-type", "write returned %r" % (r,))
            if self.path is None:
                check(r <= 0, "closed-ack", "a closed encoder acknowledged %d samples" % r)
            else:
                hard = S.hard() != self.hard0
                check(0 <= r <= n, "ack-range", "%d of %d acknowledged" % (r, n))
                check(r == n or hard or ragged, "lost-write", "%d of %d samples acknowledged on a healthy disk" % (r, n))
                self.offered = self.acked + want.tobytes()
                self.acked += want.tobytes()[:4 * r]
                if r != n and not (ragged and not hard):
                    self.broken = True
                    S.count("probe.partial-ack")
                elif r != n:
                    self.offered = self.acked
                S.time(n / self.ch / self.rate)
                S.cover(2000 + self.ch * 8 + min(n // self.ch, 7))
        elif k == 9:
            bad = self.w.no_array(F32)
            wrong(self.o.write, bad)
            wrong(self.o.open, (5, 2.5)[S.draw(2)])
        else:
            self.close()
        self.state()

    def close(self):
        S.event("enc%d close" % self.id)
        ok(self.o.close)
        self.finished()
        self.state()
        if S.chance(200):
            ok(self.o.close)

    def drop(self):
        S.event("enc%d dropped" % self.id)
        del self.o
        self.finished()


# ---- files to read ----------------------------------------------------------------------
class File:
    def __init__(self, path, intact):
        self.path = path
        self.opened, self.ch, self.rate, self.frames, self.data = S.decode(path)
        self.whole = intact and len(self.data) == 4 * self.frames * self.ch
        if self.opened and (self.ch < 1 or self.ch > 64 or self.rate < 1 or self.frames > 10 ** 7):
            S.put(path, b"")
            self.opened = False
        S.event("file %s openable=%d channels=%d frames=%d" % (path, self.opened, self.ch, self.frames))


def make_file(w):
    w.serial += 1
    path = "/sim/f%d" % w.serial
    ch = 1 + S.draw(6)
    frames = large() if S.chance(25) else S.size_near(2000, [0, 1, 1024, 1024 // ch, 512])
    kind = S.draw(8)
    data = values(frames * ch, w.counter).astype(F32).tobytes()
    w.counter += frames * ch
    b = S.make_file(data, ch, (44100, 8000, 1)[S.draw(3)], min(kind, 4))
    intact = True
    if kind == 6:
        b = b[:S.draw(len(b) + 1)]
        intact = False
    if kind == 7:
        b = bytes(S.draw(256) for _ in range(S.draw(100)))
        intact = False
    S.put(path, b)
    return File(path, intact)


class Dec:
    def __init__(self, w):
        self.w = w
        self.o = ok(pedsp.io.Decoder)
        self.f = None
        self.pos = 0
        self.lost = False
        w.serial += 1
        self.id = w.serial
        S.event("dec%d new" % self.id)
        check(self.o.is_open() is False, "is-open", "a new decoder reports an open file")

    def attributes(self):
        f = self.f
        check(ok(self.o.is_open) is (f is not None), "is-open", "is_open() = %r" % (self.o.is_open(),))
        if f is not None:
            got = (self.o.frames(), self.o.channels(), self.o.samplerate(), self.o.seekable())
            check(got == (f.frames, f.ch, f.rate, True), "accessor", "frames, channels, rate, seekable = %r, the file has %r" % (
                got, (f.frames, f.ch, f.rate, True)))

    def op(self):
        k = S.draw(14)
        if self.f is None and k and S.draw(4):
            k = 0
        f = self.f
        if k == 0:
            if not self.w.files or S.chance(150):
                self.w.files.append(make_file(self.w))
            f = self.w.files[S.draw(len(self.w.files))]
            path = f.path
            missing = S.chance(60)
            if missing:
                path = "/sim/missing"
            h = S.hard()
            good = ok(self.o.open, path)
            hit = S.hard() != h
            S.event("dec%d open %s -> %r" % (self.id, path, good))
            self.f = None
            check(not good or hit or f.opened and not missing, "opened-nothing", "opened a file that is no audio file")
            check(good or hit or missing or not f.opened, "open-failed", "open failed without a fault")
            if good and hit:
                ok(self.o.close)
            elif good:
                self.f, self.pos, self.lost = f, 0, False
        elif k < 8:
            ch = f.ch if f else 1 + S.draw(3)
            j = S.draw(4)
            if j == 0:
                n = S.draw(20) * ch
            elif j == 1:
                n = (large() if S.chance(50) else S.size_near(5000, [1024, 2048, 512])) // ch * ch
            elif j == 2 and f:
                n = max(0, f.frames - self.pos + S.range(-2, 2)) * ch
            else:
                n = S.size_near(3000, [1024])
            h = S.hard()
            r = result_array(ok(self.o.read, n), F32, "read")
            hit = S.hard() != h
            S.event("dec%d read %d -> %d %s" % (self.id, n, len(r), digest(r.tobytes())))
            check(len(r) <= n, "result-length", "read(%d) returned %d samples" % (n, len(r)))
            self.w.kept.add(r, ("an array from read", "returned it"))
            if f is None:
                check(len(r) == 0, "closed-read", "a closed decoder delivered %d samples" % len(r))
                return
            if self.lost:
                return
            rest = f.data[4 * self.pos * ch:]
            m = len(r)
            got = r.tobytes()
            common = min(len(got), len(rest))
            check(got[:common] == rest[:common], "wrong-samples", "read(%d) at frame %d delivered other samples than the file's" % (n, self.pos))
            if f.whole:
                check(len(got) <= len(rest), "forged", "read(%d) at frame %d delivered %d of %d samples left" % (n, self.pos, m, len(rest) // 4))
                if not hit:
                    check(m == min(n // ch * ch, len(rest) // 4), "short-read", "read(%d) at frame %d of %d channels delivered %d of %d samples left" % (
                        n, self.pos, ch, m, len(rest) // 4))
            if hit or not f.whole:
                self.lost = True
                return
            self.pos += m // ch
            S.time(m / ch / f.rate)
            S.cover(3000 + ch * 8 + (0 if m == 0 else 1 if m < n else 2))
        elif k < 11:
            if f is None:
                to = S.range(-2, 100)
                r = ok(self.o.seek, to)
                check(r == -1, "closed-seek", "seek(%d) on a closed decoder returned %r" % (to, r))
                return
            j = S.draw(6)
            to = (0, f.frames, f.frames + 1 + S.draw(100), -1 - S.draw(100), self.pos, S.draw(f.frames + 1))[j]
            h = S.hard()
            r = ok(self.o.seek, to)
            S.event("dec%d seek %d -> %r" % (self.id, to, r))
            if S.hard() != h:
                self.lost = True
            elif to < 0 or to > f.frames:
                check(r == -1, "seek-outside", "seek(%d) in a file of %d frames returned %r" % (to, f.frames, r))
            elif f.whole:
                check(r == to, "seek", "seek(%d) in a file of %d frames returned %r" % (to, f.frames, r))
                self.pos, self.lost = to, False
            else:
                self.lost = True
        elif k == 11:
            S.event("dec%d close" % self.id)
            ok(self.o.close)
            self.f = None
        elif k == 12:
            wrong(self.o.read, (-1, "3", None, 2.5, 1 << 33)[S.draw(5)])
            wrong(self.o.open, (5, None)[S.draw(2)])
            wrong(self.o.seek, ("x", None, 1 << 70)[S.draw(3)])
        elif f is not None and S.coin_():
            # the file disappears under the decoder: the open descriptor keeps it
            b = S.get(f.path)
            S.remove(f.path)
            S.put(f.path, b)
            S.count("fault.file-removed")
        self.attributes()

    def drop(self):
        S.event("dec%d dropped" % self.id)
        del self.o


# ---- resamplers -------------------------------------------------------------------------
class Res:
    qualities = (("BestQuality", 0), ("MediumQuality", 1), ("Fastest", 2), ("ZeroOrderHold", 3), ("Linear", 4))

    def __init__(self, w):
        self.w = w
        self.name, q = self.qualities[S.draw(5)]
        quality = getattr(pedsp.io.ResampleQuality, self.name)
        self.ch = 1 + S.draw(4)
        self.ratio = float(F32.type((1.0, 2.0, 0.5, 1 / 3.0, S.real(0.2, 5), 3.0)[S.draw(6)]))
        if S.chance(60):
            self.ratio = (0.0, -1.0, 1000.0, float("nan"))[S.draw(4)]
        if S.chance(60):
            wrong(pedsp.io.Resampler, -1, quality, 1.0)
            wrong(pedsp.io.Resampler, 1, 2, 1.0)
            wrong(pedsp.io.Resampler, 1, quality)
        h = S.hard()
        self.o = ok(pedsp.io.Resampler, self.ch, quality, self.ratio)
        self.dead = S.hard() != h
        self.q = q
        S.event("res %s channels=%d ratio=%r dead=%d" % (self.name, self.ch, self.ratio, self.dead))
        check((self.o.error() != 0) == self.dead, "accessor", "error() = %r after construction" % (self.o.error(),))
        check(self.o.ratio() == self.ratio or self.ratio != self.ratio, "accessor", "ratio() = %r" % (self.o.ratio(),))
        check(self.o.quality() == quality, "accessor", "quality() = %r" % (self.o.quality(),))
        self.t = S.Resam(self.ch, q, self.ratio)

    def op(self):
        k = S.draw(8)
        valid = 1 / 256.0 <= self.ratio <= 256
        if k < 6:
            frames = large() if S.chance(10) else S.size_near(5000, [4096]) if S.chance(40) else S.size_near(300, [0, 2, 64, 256])
            if self.name == "Linear" and frames == 1:
                frames = 2  # that converter reads the frame before a one-frame block
            n = frames * self.ch
            if self.ch > 1 and S.chance(80):
                n += 1 + S.draw(self.ch - 1)
            a, want = self.w.array(n, F32)
            h = S.hard()
            k, r = self.w.consume(self.o.process, a, "process")
            hit = S.hard() != h
            if self.ratio != self.ratio:
                check(k == "exc" or len(r[0]) == 0, "rejected-counts", "a stream without a ratio produced samples")
                return
            check(k == "ok", "raised", lambda: "process of %s %d raised %r" % (a.dtype, n, r))
            check(type(r) is tuple and len(r) == 2 and type(r[1]) is int, "result-type", "process returned %r" % (r,))
            out, used = result_array(r[0], F32, "process"), r[1]
            S.event("res process %d -> %d samples, %d consumed, error %d, %s" % (n, len(out), used, self.o.error(), digest(out.tobytes())))
            self.w.kept.add(out, ("an array from process", "returned it"))
            if self.dead or hit or not valid:
                check(len(out) == 0 and used == 0, "rejected-counts", "a rejected call produced %d samples and consumed %d frames" % (len(out), used))
                check(self.o.error() != 0 or n < self.ch, "error", "a rejected call reports no error")
                return
            tout, tused, tgen = self.t.process(want.tobytes())
            check(used == tused, "consumed", "process consumed %d frames, the core %d" % (used, tused))
            check(len(out) == tgen * self.ch, "produced", "process returned %d samples, the core produced %d frames of %d channels" % (len(out), tgen, self.ch))
            check(out.tobytes() == tout, "result-samples", "process of %d samples of %s differs from the core's output" % (n, a.dtype))
            S.cover(4000 + self.ch * 32 + self.q * 4 + min(frames, 3))
        elif k == 6:
            h = S.hard()
            r = ok(self.o.reset)
            S.event("res reset -> %r" % (r,))
            if not self.dead:
                check(r == 0, "reset", "reset returned %r" % (r,))
                self.t.reset()
        else:
            bad = self.w.no_array(F32)
            wrong(self.o.process, bad)
            text = ok(self.o.error_string)
            check(type(text) is str and len(text) > 0, "error-string", "error_string() = %r" % (text,))
            check(pedsp.io.Resampler.valid_ratio(1.5) is True and pedsp.io.Resampler.valid_ratio(1000.0) is False, "valid-ratio", "valid_ratio is wrong")


# ---- tags -------------------------------------------------------------------------------
def id3(fields):
    def size(n):
        return bytes((n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127))
    frames = b""
    for key, text in fields:
        if text:
            body = b"\x03" + text.encode("utf-8")
            frames += key + size(len(body)) + b"\0\0" + body
    frames += b"\0" * 32
    return b"ID3\x04\0\0" + size(len(frames)) + frames + (b"\xff\xfb\x90\x00" + b"\0" * 413) * 3


class Meta:
    def __init__(self, w):
        self.w = w
        w.serial += 1
        self.path = "/sim/t%d.mp3" % w.serial
        words = ("", "song", "caf\u00e9", "\u4e2d\u6587 title", "x" * 90, "O'Neill & \"co\"")
        pick = [words[S.draw(6)] for _ in range(4)]
        genre = ("", "Ambient", "G\u00e9nre")[S.draw(3)]
        pick[3] = genre
        track, year = S.draw(200), (0, 1987, 2026)[S.draw(3)]
        kind = S.draw(6)
        b = id3(((b"TIT2", pick[0]), (b"TPE1", pick[1]), (b"TALB", pick[2]), (b"TCON", genre),
                 (b"TRCK", str(track) if track else ""), (b"TDRC", str(year) if year else "")))
        self.want = (pick[0], pick[1], pick[2], genre, track, year)
        if kind == 4:
            b = b[:S.draw(len(b))]
        if kind == 5:
            b = bytes(S.draw(256) for _ in range(S.draw(60)))
        S.put(self.path, b)
        if kind >= 4:
            k, t = call(S.meta, self.path)
            self.want = t if k == "ok" else None  # text that is not UTF-8
        if S.chance(100):
            S.remove(self.path)
            self.want = ("", "", "", "", 0, 0)
        h = S.hard()
        if S.chance(100):
            wrong(pedsp.io.MetaDataReader, (None, 5)[S.draw(2)])
        self.o = ok(pedsp.io.MetaDataReader, self.path)
        if S.hard() != h:
            self.want = None
        S.event("meta kind %d faults %d" % (kind, self.want is None))
        self.op()

    def op(self):
        names = ("title", "artist", "album", "genre", "track", "year")
        got = [call(getattr(self.o, n)) for n in names]
        if self.want is None:  # damaged or read with faults: an answer or an exception, the same one each time
            if not hasattr(self, "first"):
                self.first = [(k, v if k == "ok" else None) for k, v in got]
            check(self.first == [(k, v if k == "ok" else None) for k, v in got], "metadata", "the reader changed its answer")
            return
        for n, (k, v), w in zip(names, got, self.want):
            check(k == "ok" and v == w and type(v) is type(w), "metadata", "%s() = %r, the file has %r" % (n, v, w))
        if S.chance(300):
            S.remove(self.path)
            S.event("meta file removed")


# ---- environment ------------------------------------------------------------------------
class Env:
    def __init__(self, w):
        self.w = w
        self.op()

    def op(self):
        c, env = pedsp.core, self.w.env
        name = ("EDSP_A", "EDSP_B", "A", "EDSP_A_LONGER_NAME_THAN_ANY_SMALL_BUFFER")[S.draw(4)]
        k = S.draw(6)
        if k < 2:
            v = ("", "1", "value", "x" * 300, "caf\u00e9", "a=b")[S.draw(6)]
            r = ok(c.set_environment, name, v)
            S.event("env set %s %r -> %r" % (name, v[:20], r))
            check(r == 0, "environment", "set_environment returned %r" % (r,))
            env[name] = v
        elif k < 4:
            r = ok(c.get_environment, name)
            S.event("env get %s -> %r" % (name, (r[0][:20], r[1])))
            check(type(r) is tuple and len(r) == 2, "result-type", "get_environment returned %r" % (r,))
            check(r[0] == env.get(name, "") and (r[1] == 0) == (name in env), "environment", "get_environment(%s) = %r, expected %r" % (
                name, r, env.get(name)))
        elif k == 4:
            r = ok(c.exist_environment, name)
            S.event("env exist %s -> %r" % (name, r))
            check(bool(r) == (name in env), "environment", "exist_environment(%s) = %r" % (name, r))
        else:
            j = S.draw(4)
            if j == 0:
                check(ok(c.get_environment, "")[1] != 0, "environment", "an empty name was found")
                check(ok(c.set_environment, "", "x") != 0, "environment", "an empty name was set")
                check(not ok(c.exist_environment, ""), "environment", "an empty name exists")
            elif j == 1:
                wrong(c.get_environment, 5)
                wrong(c.set_environment, name)
                wrong(c.set_environment, name, 7)
            elif j == 2:  # no text at all
                k, r = call(c.get_environment, None)
                check(k == "exc" or r[1] != 0, "environment", "a missing name was found")
                k, r = call(c.exist_environment, None)
                check(k == "exc" or not r, "environment", "a missing name exists")
                k, r = call(c.set_environment, None, "x")
                check(k == "exc" or r != 0, "environment", "a missing name was set")
                k, r = call(c.set_environment, name, None)
                if k == "ok" and r == 0:
                    env[name] = ok(c.get_environment, name)[0]
            else:
                check(all(type(ok(getattr(c, "get_" + n))) is str for n in ("version", "build_date", "build_time", "fft_library",
                                                                            "codec_library", "resample_library")), "result-type", "library information")

    def drop(self):
        pass


# ---- functions of arrays ----------------------------------------------------------------
C128 = np.dtype("complex128")


def size_param(kind):
    if S.chance(40):
        return S.size_near(70000, [32768, 65536]) if kind in ("make", "join", "pad", "equal") else S.size_near(2500, [1024, 2048])
    return S.size_near(200, [1, 2, 8, 64])


# name: (kind of the call, numbers it takes)
FUNCTIONS = {}
for _n in "ceil floor round trunc abs normalize".split():
    FUNCTIONS["algorithm." + _n] = ("each", 0)
FUNCTIONS.update({"algorithm.scale": ("each", 1), "algorithm.scale_clip": ("each", 3), "algorithm.clip": ("each", 2),
                  "algorithm.concatenate": ("join", 0), "algorithm.pad": ("pad", 0), "algorithm.equal": ("equal", 0),
                  "algorithm.linear_search": ("find", 1), "algorithm.linspace": ("make", 2), "algorithm.logspace": ("make", 2),
                  "statistics.moment": ("order", 4), "statistics.generalized_mean": ("order", 4),
                  "statistics.peak": ("pair", 0), "statistics.peak_abs": ("pair", 0),
                  "spectral.conv": ("two", 0), "spectral.xcorr": ("two", 0), "spectral.spectrum": ("each", 0),
                  "spectral.hilbert": ("complex", 0), "spectral.rfft": ("complex", 0), "spectral.irfft": ("from-complex", 0),
                  "spectral.fft": ("complex-complex", 0), "spectral.ifft": ("complex-complex", 0),
                  "converter.real2complex": ("complex", 0), "converter.ri2complex": ("two-complex", 0),
                  "converter.complex2real": ("parts", 0), "spectral.spectral_rolloff": ("one", 1), "statistics.rolloff": ("one", 1),
                  "temporal.duration": ("one", 1), "temporal.effective_duration": ("one", 2)})
for _n in "kurtosis skewness geometric_mean harmonic_mean max min max_abs min_abs mean median variance standard_deviation norm " \
          "crest entropy flatness decrease centroid spread".split():
    FUNCTIONS["statistics." + _n] = ("one", 0)
for _n in "cepstrum dct idct hartley".split():
    FUNCTIONS["spectral." + _n] = ("each", 0)
for _n in "crest kurtosis skewness entropy flatness irregularity decrease".split():
    FUNCTIONS["spectral.spectral_" + _n] = ("one", 0)
for _n in "centroid spread variation flux slope".split():
    FUNCTIONS["spectral.spectral_" + _n] = ("two-one", 0)
for _n in "weighted_centroid weighted_spread flux slope".split():
    FUNCTIONS["statistics." + _n] = ("two-one", 0)
for _n in "rssq rms power energy leq azcr".split():
    FUNCTIONS["temporal." + _n] = ("one", 0)
FUNCTIONS.update({"temporal.amdf": ("each", 0), "temporal.asdf": ("each", 0), "converter.peak2rms": ("one", 0), "converter.peak2peak": ("one", 0)})
for _n in "erbspace barkspace centspace melspace".split():
    FUNCTIONS["auditory." + _n] = ("make", 2)
for _n in "hamming hanning bartlett blackman blackman_harris blackman_nutall boxcar flattop triangular welch rectangular".split():
    FUNCTIONS["windowing." + _n] = ("make", 0)
NAMES = sorted(FUNCTIONS)


def flat(r, kind, what):
    """The numbers of a result as an array of float64."""
    if kind in ("each", "join", "pad", "make", "two"):
        return result_array(r, F64, what)
    if kind in ("complex", "complex-complex", "two-complex"):
        return result_array(r, C128, what).view(F64)
    if kind == "from-complex":
        return result_array(r, F64, what)
    if kind == "parts":
        check(type(r) is tuple and len(r) == 2, "result-type", "%s returned %r" % (what, type(r)))
        return np.concatenate([result_array(r[0], F64, what), result_array(r[1], F64, what)])
    if kind == "pair":
        check(type(r) is tuple and len(r) == 2 and type(r[0]) is int, "result-type", "%s returned %r" % (what, r))
        return np.array([float(r[0]), r[1]])
    check(type(r) in (float, int, bool), "result-type", "%s returned %r" % (what, type(r)))
    return np.array([float(r)])


class Fun:
    """One function of arrays, called again and again."""

    def __init__(self, w):
        self.w = w
        self.op()

    def op(self):
        w = self.w
        name = NAMES[S.draw(len(NAMES))]
        kind, numbers = FUNCTIONS[name]
        package, short = name.split(".")
        fn = getattr(getattr(pedsp, package), short)
        p = [S.real(-2, 2), S.real(-1, 0), S.real(0, 1)]
        if short in ("clip",):
            p = [S.real(-1, 0), S.real(0, 1), 0.0]
        elif "rolloff" in short:
            p = [S.real(0.05, 0.95), 0.0, 0.0]
        elif "duration" in short:
            p = [S.real(1, 48000), S.real(0, 1), 0.0]
        elif package == "auditory":
            p = [0.0, S.real(20, 2000), S.real(2000, 20000)]
        if S.chance(60):
            bad = w.no_array(F64)
            if kind == "make":
                wrong(fn, *([] if not numbers else [1.0, 2.0]) + [(-1, -1000, "5", None, 2.5, HUGE)[S.draw(6)]])
            elif kind in ("join", "equal", "two", "two-one", "two-complex"):
                good = np.zeros(2)  # as long as the array of texts: equal may answer without reading arrays of other sizes
                wrong(fn, *((bad, good) if S.draw(2) else (good, bad)))
            else:
                wrong(fn, bad, *([5] if kind == "pad" else [1] if kind == "order" else p[:numbers]))
            return
        n = size_param(kind)
        complex_in = kind in ("from-complex", "complex-complex", "parts")
        arrays, wants = [], []
        if kind != "make":
            a, want = w.array(n, F64, (1, 1, 1, 1e4)[S.draw(4)])
            if complex_in and S.draw(4):
                b, wb = w.array(n, F64)
                a = np.ascontiguousarray(a.astype(F64)) + 1j * np.ascontiguousarray(b.astype(F64))
                want = a.copy()
                j = S.draw(4)
                if j == 1:
                    a = np.repeat(a, 2)[::2]
                elif j == 2:
                    a = a.astype("complex64")
                    want = a.astype(C128)
                elif j == 3:
                    a = a.astype(C128.newbyteorder())
            if complex_in:
                want = want.astype(C128)
            arrays.append(a)
            wants.append(want)
        if kind in ("join", "equal", "two", "two-one", "two-complex"):
            m = n if kind not in ("join",) and S.draw(6) else size_param(kind)
            if kind == "equal" and S.draw(2):
                b, wb = a.copy(), want.copy()
                m = n
            else:
                b, wb = w.array(m, F64)
            arrays.append(b)
            wants.append(wb)
            if m != n and kind not in ("join", "equal"):
                S.event("%s of %d and %d elements" % (name, n, m))
                wrong(fn, *arrays)
                return
        args = p[:numbers]
        core = list(p)
        if kind == "make":
            args = p[1:1 + numbers] + [n]
            core = [float(n), p[1], p[2]]
        elif kind == "pad":
            size = n + S.draw(40) - (5 if S.chance(200) else 0)
            if size < n:
                S.event("pad %d to %d" % (n, size))
                wrong(fn, a, size)
                return
            args, core = [size], [float(size), 0.0, 0.0]
        elif kind == "order":
            order = 1 + S.draw(4)
            args, core = [order], [float(order), 0.0, 0.0]
        elif kind == "find":
            v = float(want[S.draw(n)]) if n and S.draw(2) else 0.123456
            args, core = [v], [v, 0.0, 0.0]
        before = [x.tobytes() for x in arrays]
        armed = S.chance(120)
        plans = S.plans_failed()
        if armed:
            S.arm(S.draw(8))
        k, r = call(fn, *(arrays + args))
        hit = S.disarm() if armed else 0
        if hit:
            S.count("fault.alloc")
        hit = hit or S.plans_failed() != plans
        check([x.tobytes() for x in arrays] == before, "input-changed", "%s changed its input" % name)
        for x in arrays:
            w.kept.add(x, ("an input array", "read it"))
        if k == "exc":
            S.event("%s of %d -> %s" % (name, n, type(r).__name__))
            check(hit or n <= (name == "spectral.irfft"), "raised", lambda: "%s of %d elements (%s) raised %r" % (name, n, arrays[0].dtype if arrays else "", r))
            return
        got = flat(r, kind, name)
        for x in r if type(r) is tuple else (r,):
            if type(x) is np.ndarray:
                w.kept.add(x, ("an array from " + name, "returned it"))
        if n <= (name == "spectral.irfft") and kind not in ("join", "pad"):
            S.event("%s of nothing" % name)
            return
        ref = np.frombuffer(S.core(name, wants[0].tobytes() if wants else b"", wants[1].tobytes() if len(wants) > 1 else b"", *core), F64)
        S.event("%s of %d %s -> %s" % (name, n, [(str(x.dtype), x.strides) for x in arrays], digest(got.tobytes())))
        check(len(got) == len(ref), "result-length", "%s of %d elements gives %d numbers, the core %d" % (name, n, len(got), len(ref)))
        top = np.abs(ref[np.isfinite(ref)]).max() if np.isfinite(ref).any() else 0.0
        same = (got == ref) | (np.isnan(got) & np.isnan(ref)) | (np.abs(got - ref) <= 1e-9 * top)
        check(bool(same.all()), "result-samples", lambda: "%s of %d elements of %s differs from the core's result: %r, not %r" % (
            name, n, [(str(x.dtype), x.strides) for x in arrays], float(got[np.argmin(same)]), float(ref[np.argmin(same)])))
        S.cover(6000 + NAMES.index(name) * 8 + min(n, 7))

    def drop(self):
        pass


SPACE = " \t\n\v\f\r"
LOWER = "abcdefghijklmnopqrstuvwxyz"
LETTERS = LOWER.upper() + LOWER + "09_-" + SPACE * 3 + ",;" * 5 + "\u00e9\u0416\u4e16\U0001f600"


class Text:
    """The helpers on strings, against Python's own."""

    def __init__(self, w):
        self.w = w
        self.op()

    def text(self, top=40):
        n = S.size_near(2000, [0, 1, 15, 16]) if S.chance(60) else S.draw(top)
        seed = S.draw(1 << 16)
        blank = S.draw(4) == 0
        letters = SPACE if blank else LETTERS
        return "".join(letters[(seed * (i + 1) * 2654435761 >> 7) % len(letters)] for i in range(n))

    def op(self):
        k = S.draw(8)
        if k == 7:
            fn = getattr(pedsp.string, ("trim", "split", "join", "to_lower")[S.draw(4)])
            bad = (None, 7, 2.5, ["a"], ("a", "b"))[S.draw(5)]
            args = {"split": (bad, ","), "join": (["a", bad] if S.draw(2) else ("a", "b"), ",")}.get(fn.__name__, (bad,))
            wrong(fn, *args)
            return
        name = ("trim", "ltrim", "rtrim", "to_lower", "to_upper", "split", "join")[k]
        fn = getattr(pedsp.string, name)
        sep = ",; x"[S.draw(4)]
        if name == "join":
            parts = [self.text(12) for _ in range(S.draw(6))]
            args, want = (parts, sep), sep.join(parts)
        else:
            t = self.text()
            args = (t, sep) if name == "split" else (t,)
            up = dict(zip(map(ord, LOWER), LOWER.upper()))
            down = dict(zip(map(ord, LOWER.upper()), LOWER))
            want = {"trim": lambda: t.strip(SPACE), "ltrim": lambda: t.lstrip(SPACE), "rtrim": lambda: t.rstrip(SPACE),
                    "to_lower": lambda: t.translate(down), "to_upper": lambda: t.translate(up),
                    "split": lambda: [x for x in t.split(sep) if x]}[name]()
        armed = S.chance(150)
        if armed:
            S.arm(S.draw(8))
        kind, r = call(fn, *args)
        hit = S.disarm() if armed else 0
        if hit:
            S.count("fault.alloc")
        S.event("string.%s %r -> %s" % (name, args, type(r).__name__ if kind == "exc" else digest(repr(r).encode())))
        if kind == "exc":
            check(hit, "raised", lambda: "string.%s raised %r" % (name, r))
            return
        check(type(r) is type(want) and r == want, "result-text", lambda: "string.%s%r gives %r, not %r" % (name, args, r, want))
        S.cover(7000 + k * 8 + min(len(args[0]), 7))

    def drop(self):
        pass


KINDS = (Osc, Filt, Enc, Dec, Res, Meta, Env, Fun, Text, Fun, Fun)


def coin():
    return S.draw(2) == 1


S.coin_ = coin


def session():
    w = World()
    mode = S.draw(4)
    if mode >= 1:
        for n, p in (("read_short", 150), ("read_eintr", 100), ("write_short", 150), ("write_eintr", 100)):
            if coin():
                S.fault(n, p)
    if mode >= 2:
        j = S.draw(11)
        S.fault(*(("read_eio", 1 + S.draw(80)), ("open_fail", 200), ("seek_fail", 1 + S.draw(60)), ("close_fail", 200),
                  ("write_eio", 1 + S.draw(60)), ("write_enospc", 1 + S.draw(60)), ("sf_open", 200), ("src_new", 300),
                  ("src_process", 200), ("capacity", 2000 + S.draw(30000)), ("plan", 200))[j])
        w.seeks_fail = j == 2
    S.event("mode %d" % mode)
    only = S.draw(15)  # some sessions use one kind of object only
    live = []
    while S.more(30):
        S.begin()
        kind = KINDS[only] if only < 9 else KINDS[S.draw(len(KINDS))]
        same = [o for o in live if type(o) is kind]
        if not same or len(live) < 6 and S.chance(150):
            live.append(kind(w))
        elif S.chance(80):
            o = same[S.draw(len(same))]
            live.remove(o)
            if hasattr(o, "drop"):
                o.drop()
            del o
        else:
            same[S.draw(len(same))].op()
        del same
        if S.chance(60):
            gc.collect()
            w.kept.verify()
        S.end()
    w.kept.verify()
    while live:
        o = live.pop()
        if hasattr(o, "drop"):
            o.drop()
        del o
    w.kept.verify()
    w.kept.items.clear()
    gc.collect()
