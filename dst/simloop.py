"""A virtual-time asyncio event loop with a simulated TCP network.

The loop is the real ``asyncio.base_events.BaseEventLoop`` scheduler; only its
selector, clock and transports are replaced.  Time advances only when nothing is
runnable, so the code under test experiences seconds and hours in microseconds.
Real ``StreamReader``/``StreamWriter``/``StreamReaderProtocol`` run on top.
"""
import asyncio
import collections
import heapq
from asyncio import base_events, events, transports


class SimDeadlock(Exception):
    """Nothing is runnable and no event will ever happen."""


class SimStepLimit(Exception):
    """The run executed more loop iterations than its cap."""


class _SimSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        loop.iterations += 1
        if loop.iterations > loop.max_iterations:
            raise SimStepLimit(f"more than {loop.max_iterations} loop iterations")
        if timeout is None or timeout > 0:
            # Everything runnable has run: a quiescent instant.
            if loop.quiescent_hook is not None:
                loop.quiescent_hook()
                if loop._ready or loop._stopping:
                    timeout = 0
                elif loop._scheduled:
                    timeout = max(0.0, loop._scheduled[0]._when - loop._now)
        q = loop._net
        if timeout == 0:
            return loop._due()
        target = None
        if timeout is not None:
            target = loop._now + timeout
        if q and (target is None or q[0][0] <= target):
            target = q[0][0]
        if target is None:
            raise SimDeadlock("no runnable task, no timer, no network event")
        if target > loop._now:
            loop._now = target
        return loop._due()

    def close(self):
        pass

    def get_map(self):
        return {}


class _Timer(events.TimerHandle):
    """Timers due at the same instant run in the order they were set, whatever else is in the heap."""

    def __init__(self, n, *a):
        super().__init__(*a)
        self.n = n

    def __lt__(self, other):
        return (self._when, self.n) < (other._when, other.n)


class SimLoop(base_events.BaseEventLoop):
    def __init__(self, seed=0, max_iterations=2_000_000, start=1000.0):
        super().__init__()
        self._selector = _SimSelector(self)
        self._clock_resolution = 1e-9
        self._now = start
        self.t0 = start
        self._net = []
        self._net_seq = 0
        self._timer_n = 0
        self.iterations = 0
        self.max_iterations = max_iterations
        self.quiescent_hook = None
        self.net = None  # SimNet
        self.seed = seed

    # --- clock -------------------------------------------------------------
    def time(self):
        return self._now

    def call_at(self, when, callback, *args, context=None):
        self._check_closed()
        self._timer_n += 1
        t = _Timer(self._timer_n, when, callback, args, self, context)
        heapq.heappush(self._scheduled, t)
        t._scheduled = True
        return t

    @property
    def elapsed(self):
        return self._now - self.t0

    def jump(self, seconds):
        """Monotonic time passes without anything having run (a stalled process)."""
        self._now += seconds

    # --- selector plumbing --------------------------------------------------
    def _process_events(self, event_list):
        for handle in event_list:
            if not handle._cancelled:
                self._ready.append(handle)

    def _due(self):
        out = []
        q = self._net
        while q and q[0][0] <= self._now:
            out.append(heapq.heappop(q)[2])
        return out

    def net_at(self, when, cb, *args):
        """Schedule an I/O event (delivered through the selector)."""
        h = events.Handle(cb, args, self)
        self._net_seq += 1
        heapq.heappush(self._net, (max(when, self._now), self._net_seq, h))
        return h

    def net_in(self, delay, cb, *args):
        return self.net_at(self._now + delay, cb, *args)

    def _write_to_self(self):
        pass

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except BaseException as e:  # noqa: BLE001
            fut.set_exception(e)
        return fut

    def close(self):
        if self.is_closed():
            return
        super().close()
        self._selector = None

    # --- network ------------------------------------------------------------
    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        return await self.net.connect(protocol_factory, host, port)

    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        return self.net.listen(protocol_factory, host, port)

    async def getaddrinfo(self, host, port, *a, **kw):
        return [(2, 1, 6, "", (host, port))]


class _Half:
    """One direction of a simulated TCP connection."""

    __slots__ = ("inflight", "last_at", "stalled", "queue", "due", "black")

    def __init__(self):
        self.inflight = 0  # bytes accepted by the sending kernel, not yet acknowledged
        self.last_at = 0.0
        self.stalled = False
        self.queue = collections.deque()  # what the sender's kernel sent, in order, not yet delivered
        self.due = 0  # deliveries that fell due while stalled
        self.black = False


class SimTransport(transports.Transport):
    """Faithful model of asyncio's selector socket transport over a simulated link."""

    max_size = 256 * 1024

    def __init__(self, loop, protocol, conn, side):
        super().__init__({"peername": conn.addr if side == 0 else ("10.9.9.9", 40000 + conn.id),
                          "sockname": ("10.9.9.9", 40000 + conn.id) if side == 0 else conn.addr})
        self._loop = loop
        self._protocol = protocol
        self.conn = conn
        self.side = side
        self._buffer = bytearray()
        self._conn_lost = 0
        self._closing = False
        self._eof = False
        self._paused = False
        self._protocol_paused = False
        self._rx = collections.deque()  # received, unread: bytes / None for EOF
        self._read_scheduled = False
        self._reading = False
        self.lost_called = False
        self.kernel_cap = conn.kernel_cap
        self._high = conn.hiwater if side == 0 else 65536
        self._low = self._high // 4
        self.fully_closed = False

    # -- start ---------------------------------------------------------------
    def _start(self):
        self._protocol.connection_made(self)
        self._loop.call_soon(self._begin_reading)

    def _begin_reading(self):
        if not self._closing:
            self._reading = True
            self._kick_read()

    # -- reading -------------------------------------------------------------
    def _arrive(self, item):
        """Called by the network: bytes, None (EOF) or an exception (RST/timeout)."""
        if self.fully_closed:
            return
        self._rx.append(item)  # unread data is read before the error, as on Linux
        self._read_ready()

    def _kick_read(self):
        if self._rx and not self._read_scheduled and self._reading and not self._paused and not self._closing:
            self._read_scheduled = True
            self._loop.net_in(0.0, self._read_ready_h)

    def _read_ready_h(self):
        self._read_scheduled = False
        self._read_ready()

    def _read_ready(self):
        if self._conn_lost or self._closing or self._paused or not self._reading:
            return
        if not self._rx:
            return
        item = self._rx[0]
        if isinstance(item, BaseException):
            self._rx.popleft()
            self._fatal_error(item)
            return
        if item is None:
            self._rx.popleft()
            self._reading = False
            try:
                keep = self._protocol.eof_received()
            except (SystemExit, KeyboardInterrupt):
                raise
            except BaseException as exc:  # noqa: BLE001
                self._fatal_error(exc)
                return
            if not keep:
                self.close()
            return
        data = self._rx.popleft()
        while self._rx and isinstance(self._rx[0], (bytes, bytearray)) and self.conn.coalesce:
            data += self._rx.popleft()
        try:
            self._protocol.data_received(bytes(data))
        except (SystemExit, KeyboardInterrupt):
            raise
        except BaseException as exc:  # noqa: BLE001
            self._fatal_error(exc)
            return
        self._kick_read()

    def pause_reading(self):
        if self._closing or self._paused:
            return
        self._paused = True

    def resume_reading(self):
        if self._closing or not self._paused:
            return
        self._paused = False
        self._kick_read()

    def is_reading(self):
        return self._reading and not self._paused and not self._closing

    # -- writing -------------------------------------------------------------
    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError(f"data argument must be a bytes-like object, not {type(data).__name__!r}")
        if self._eof:
            raise RuntimeError("Cannot call write() after write_eof()")
        if not data:
            return
        data = bytes(data)
        self.conn.note_write(self.side, data, dropped=bool(self._conn_lost))
        if self._conn_lost:
            self._conn_lost += 1
            return
        if not self._buffer:
            n = self.conn.kernel_accept(self.side, data)
            if n < 0:
                self._fatal_error(self.conn.write_error(self.side))
                return
            data = data[n:]
            if not data:
                return
        self._buffer += data
        self._maybe_pause()

    def writelines(self, list_of_data):
        self.write(b"".join(list_of_data))

    def _kernel_space(self):
        """The network drained something: push more from the user buffer."""
        if self._conn_lost or not self._buffer:
            return
        n = self.conn.kernel_accept(self.side, bytes(self._buffer))
        if n < 0:
            self._fatal_error(self.conn.write_error(self.side))
            return
        if n:
            del self._buffer[:n]
        self._maybe_resume()
        if not self._buffer:
            if self._closing:
                self._call_connection_lost_soon(None)
            elif self._eof:
                self.conn.send_eof(self.side)

    def write_eof(self):
        if self._closing or self._eof:
            return
        self._eof = True
        if not self._buffer:
            self.conn.send_eof(self.side)

    def can_write_eof(self):
        return True

    def get_write_buffer_size(self):
        return len(self._buffer)

    def get_write_buffer_limits(self):
        return (self._low, self._high)

    def set_write_buffer_limits(self, high=None, low=None):
        if high is None:
            high = 64 * 1024 if low is None else 4 * low
        if low is None:
            low = high // 4
        self._high, self._low = high, low
        self._maybe_pause()

    def _maybe_pause(self):
        if len(self._buffer) > self._high and not self._protocol_paused:
            self._protocol_paused = True
            self.conn.pauses[self.side].append([self._loop._now, None])
            self._protocol.pause_writing()

    def _maybe_resume(self):
        if self._protocol_paused and len(self._buffer) <= self._low:
            self._protocol_paused = False
            self.conn.pauses[self.side][-1][1] = self._loop._now
            self._protocol.resume_writing()

    # -- closing -------------------------------------------------------------
    def is_closing(self):
        return self._closing

    def set_protocol(self, protocol):
        self._protocol = protocol

    def get_protocol(self):
        return self._protocol

    def close(self):
        if self._closing:
            return
        self._closing = True
        self._reading = False
        if not self._buffer:
            self._conn_lost += 1
            self._loop.call_soon(self._call_connection_lost, None)

    def _call_connection_lost_soon(self, exc):
        self._conn_lost += 1
        self._loop.call_soon(self._call_connection_lost, exc)

    def abort(self):
        self._force_close(None)

    def _fatal_error(self, exc, message=None):
        if not isinstance(exc, OSError):
            self._loop.call_exception_handler({"message": message or "Fatal error on transport", "exception": exc,
                                               "transport": self, "protocol": self._protocol})
        self._force_close(exc)

    def _force_close(self, exc):
        if self._conn_lost:
            return
        self._buffer.clear()
        if not self._closing:
            self._closing = True
        self._reading = False
        self._conn_lost += 1
        self.conn.aborted[self.side] = True
        self._loop.call_soon(self._call_connection_lost, exc)

    def _call_connection_lost(self, exc):
        if self.lost_called:
            return
        self.lost_called = True
        self.fully_closed = True
        try:
            self._protocol.connection_lost(exc)
        finally:
            self.conn.side_closed(self.side, exc)


class SimConn:
    """A TCP connection: side 0 is the client (initiator), side 1 the server."""

    def __init__(self, net, cid, addr, cfg):
        self.net = net
        self.loop = net.loop
        self.id = cid
        self.addr = addr
        self.cfg = cfg
        self.kernel_cap = cfg.get("kernel_cap", 65536)
        self.hiwater = cfg.get("hiwater", 65536)
        self.coalesce = cfg.get("coalesce", False)
        self.halves = (_Half(), _Half())  # halves[s]: traffic sent by side s
        self.t = [None, None]
        self.closed = [False, False]
        self.aborted = [False, False]
        self.reset = False
        self.opened_at = net.loop.time()
        self.closed_at = [None, None]
        self.nseg = [0, 0]
        self.werr = [None, None]
        self.pauses = [[], []]  # backpressure episodes [from, to] of each side's writer

    # -- recording -----------------------------------------------------------
    def note_write(self, side, data, dropped):
        self.net.on_write(self, side, data, dropped)

    # -- kernel model --------------------------------------------------------
    def write_error(self, side):
        return self.werr[side] or BrokenPipeError(32, "Broken pipe")

    def kernel_accept(self, side, data):
        """Bytes the sending kernel takes now; -1 for a hard error."""
        if self.werr[side] is not None or self.reset:
            if self.werr[side] is None:
                self.werr[side] = BrokenPipeError(32, "Broken pipe")
            return -1
        h = self.halves[side]
        room = (self.kernel_cap if side == 0 else 65536) - h.inflight
        if room <= 0:
            return 0
        take = data[:room]
        h.inflight += len(take)
        self.transmit(side, take)
        return len(take)

    def transmit(self, side, data):
        h = self.halves[side]
        for seg, delay in self.net.segment(self, side, data):
            when = max(self.loop.time() + delay, h.last_at)
            h.last_at = when
            h.queue.append(seg)
            self.loop.net_at(when, self._deliver, side)

    def _deliver(self, side):
        h = self.halves[side]
        if h.stalled:
            h.due += 1
            return
        seg = h.queue.popleft()
        other = 1 - side
        ot = self.t[other]
        if isinstance(seg, (bytes, bytearray)):
            h.inflight -= len(seg)
        if self.reset and not isinstance(seg, BaseException):
            return
        if self.closed[other] or (ot is not None and ot.fully_closed):
            if isinstance(seg, (bytes, bytearray)):
                # data to a fully closed peer: it answers RST
                self.rst(from_side=other, delay=self.net.latency(self, other))
            return
        self.net.on_deliver(self, other, seg)
        if ot is not None:
            ot._arrive(seg)
        st = self.t[side]
        if st is not None and isinstance(seg, (bytes, bytearray)):
            st._kernel_space()

    def send_eof(self, side):
        h = self.halves[side]
        when = max(self.loop.time() + self.net.latency(self, side), h.last_at)
        h.last_at = when
        h.queue.append(None)
        self.loop.net_at(when, self._deliver, side)

    # -- faults --------------------------------------------------------------
    def stall(self, side):
        """Half-open: nothing sent by `side` is delivered or acknowledged any more."""
        self.halves[side].stalled = True

    def unstall(self, side):
        h = self.halves[side]
        if not h.stalled:
            return
        h.stalled = False
        due, h.due = h.due, 0
        when = self.loop.time() + self.net.latency(self, side)
        for _ in range(due):
            self.loop.net_at(when, self._deliver, side)

    def rst(self, from_side, delay=0.0, exc=None):
        """`from_side` resets the connection: the other side sees a connection error."""
        other = 1 - from_side
        err = exc or ConnectionResetError(104, "Connection reset by peer")

        def _go():
            if self.halves[from_side].stalled:
                return
            self.reset = True
            ot = self.t[other]
            if ot is not None and not ot.fully_closed:
                self.net.on_deliver(self, other, err)
                if ot._closing and ot._buffer:
                    # the writer registered for flushing sees EPIPE/ECONNRESET
                    ot._fatal_error(err)
                else:
                    ot._arrive(err)
        self.loop.net_in(delay, _go)

    def kill_local(self, side, exc):
        """The local kernel reports an error (ETIMEDOUT, EHOSTUNREACH) on `side`."""
        self.werr[side] = exc
        t = self.t[side]
        if t is not None and not t.fully_closed:
            self.net.on_deliver(self, side, exc)
            if t._closing and t._buffer:
                t._fatal_error(exc)
            else:
                t._arrive(exc)

    def side_closed(self, side, exc):
        if self.closed[side]:
            return
        self.closed[side] = True
        self.closed_at[side] = self.loop.time()
        if side == 1:
            self.server.detach()
        self.net.on_side_closed(self, side)
        if self.reset or self.closed[1 - side]:
            return
        if self.aborted[side]:
            self.rst(from_side=side, delay=self.net.latency(self, side))
        else:
            self.send_eof(side)


class SimServer(asyncio.AbstractServer):
    def __init__(self, net, key):
        self.net = net
        self.key = key
        self._serving = True
        self.sockets = [_FakeSock(key)]
        self.active = 0
        self._waiters = []

    def close(self):
        if not self._serving:
            return
        self._serving = False
        self.net.listeners.pop(self.key, None)
        self.net.servers.pop(self.key, None)
        self._wakeup()

    def detach(self):
        self.active -= 1
        self._wakeup()

    def _wakeup(self):
        if not self._serving and not self.active and self._waiters is not None:
            waiters, self._waiters = self._waiters, None
            for f in waiters:
                if not f.done():
                    f.set_result(None)

    async def wait_closed(self):
        """As asyncio.Server since 3.12: returns once closed and every connection it accepted has ended."""
        if self._waiters is None:
            return
        f = self.net.loop.create_future()
        self._waiters.append(f)
        await f

    def is_serving(self):
        return self._serving

    def get_loop(self):
        return self.net.loop

    async def start_serving(self):
        return None

    async def serve_forever(self):
        await self.net.loop.create_future()

    def close_clients(self):
        pass

    def abort_clients(self):
        pass


class _FakeSock:
    def __init__(self, key):
        self.key = key

    def getsockname(self):
        return self.key


class SimNet:
    """Address space, connection establishment, latency and segmentation policy."""

    def __init__(self, loop, policy):
        self.loop = loop
        loop.net = self
        self.policy = policy  # object with connect_policy/segment/latency/on_* hooks
        self.listeners = {}
        self.servers = {}
        self.conns = []
        self.next_port = 50000

    def listen(self, factory, host, port):
        if not port:
            self.next_port += 1
            port = self.next_port
        key = (host, port)
        if key in self.listeners:
            raise OSError(98, "Address already in use")
        self.listeners[key] = factory
        srv = self.servers[key] = SimServer(self, key)
        return srv

    def latency(self, conn, side):
        return self.policy.latency(conn, side)

    def segment(self, conn, side, data):
        return self.policy.segment(conn, side, data)

    def on_write(self, conn, side, data, dropped):
        self.policy.on_write(conn, side, data, dropped)

    def on_deliver(self, conn, side, item):
        self.policy.on_deliver(conn, side, item)

    def on_side_closed(self, conn, side):
        self.policy.on_side_closed(conn, side)

    async def connect(self, factory, host, port):
        loop = self.loop
        action, delay, cfg = self.policy.connect_policy(host, port)
        if delay > 0:
            fut = loop.create_future()
            loop.net_in(delay, lambda: None if fut.done() else fut.set_result(None))
            await fut
        else:
            await asyncio.sleep(0)
        if action == "hang":
            self.policy.connect_outcome("hang")
            await loop.create_future()
        srv = self.listeners.get((host, port)) or self.listeners.get((None, port))
        if action == "refuse" or srv is None:
            self.policy.connect_outcome("refuse")
            raise ConnectionRefusedError(111, f"Connect call failed ({host!r}, {port})")
        if isinstance(action, OSError):
            self.policy.connect_outcome("oserror")
            raise action
        conn = SimConn(self, len(self.conns), (host, port), cfg)
        conn.server = self.servers.get((host, port)) or self.servers[(None, port)]
        conn.server.active += 1
        self.conns.append(conn)
        sp = srv()
        cp = factory()
        ct = SimTransport(loop, cp, conn, 0)
        st = SimTransport(loop, sp, conn, 1)
        conn.t[0], conn.t[1] = ct, st
        self.policy.on_connect(conn)
        waiter = loop.create_future()
        loop.call_soon(st._start)
        loop.call_soon(ct._start)
        loop.call_soon(lambda: None if waiter.done() else waiter.set_result(None))
        try:
            await waiter
        except BaseException:
            ct.close()
            raise
        return ct, cp
