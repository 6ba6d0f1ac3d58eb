From 492693a33a60bdf046344ba01314e02929fff8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 01/31] fix: close() always completes and releases the
 connection

A half-open link with unflushed data left close() (and so connect()) waiting in
wait_closed() for good, and any OSError other than ConnectionResetError escaped
with the dead writer still attached, so every later connect() failed too.
---
 givenergy_modbus/client/client.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 3281a7e..5b52fe8 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -80,6 +80,9 @@ _FRAME_SENT_MIN_TIMEOUT = 5.0
 # connection loss rather than left to wedge the producer until close() (hass#233).
 _DRAIN_TIMEOUT = 10.0
 
+# Upper bound on waiting for a closing connection to flush its write buffer.
+_CLOSE_TIMEOUT = 5.0
+
 # Re-warn cadence for the coalesced reader-EOF reconnect churn. A marginal dongle that
 # idle-reaps the TCP connection every ~10s (hass#95) would otherwise emit thousands of
 # 'connection lost (reader at EOF)' WARNING lines/day on a setup that is working fine —
@@ -564,12 +567,19 @@ class Client:
         if self.network_producer_task:
             self.network_producer_task.cancel()
         if hasattr(self, "writer") and self.writer:
-            self.writer.close()
-            try:
-                await self.writer.wait_closed()
-            except ConnectionResetError:
-                pass
+            writer = self.writer
             del self.writer
+            writer.close()
+            try:
+                # wait_closed() first flushes the write buffer, which on a half-open link
+                # never completes — bound it so close() and connect() can't hang.
+                await asyncio.wait_for(writer.wait_closed(), timeout=_CLOSE_TIMEOUT)
+            except OSError as e:
+                # Covers TimeoutError and every way the link can already be dead (reset, broken
+                # pipe, keepalive timeout, ...): nothing left to flush, so not a close() failure.
+                _logger.debug("Connection already lost while closing: %r", e)
+            finally:
+                writer.transport.abort()  # no-op once closed; otherwise release the socket now
 
         if self.network_consumer_task:
             self.network_consumer_task.cancel()
-- 
2.43.0


From c6fda8d9bf85f81cf0c95617e47fdbf1895f152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 02/31] fix: keep failing fast with ConnectionLost until a
 reconnect succeeds

connect() cleared the lost flag before opening the socket, so after a failed
reconnect every request waited out the stuck-producer timeout instead of raising
ConnectionLost at once.
---
 givenergy_modbus/client/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 5b52fe8..2b7c3fe 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -543,12 +543,13 @@ class Client:
         ):
             await self.close()
         self._shutting_down = False
-        self._connection_lost = False
         try:
             connection = asyncio.open_connection(host=self.host, port=self.port, flags=socket.TCP_NODELAY)
             self.reader, self.writer = await asyncio.wait_for(connection, timeout=self.connect_timeout)
         except OSError as e:
             raise CommunicationError(f"Error connecting to {self.host}:{self.port}") from e
+        # Only a successful reconnect ends the lost state; until then requests keep failing fast.
+        self._connection_lost = False
         self.network_consumer_task = asyncio.create_task(self._task_network_consumer(), name="network_consumer")
         self.network_producer_task = asyncio.create_task(self._task_network_producer(), name="network_producer")
         # asyncio.create_task(self._task_dump_queues_to_files(), name='dump_queues_to_files'),
-- 
2.43.0


From ab1aa36702997206d92451e725d840ac74d20f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 03/31] fix: treat a socket error while reading as connection
 loss

A reset (or any other OSError) raised by reader.read() killed the consumer task
unhandled: the client stayed 'connected', in-flight requests got plain timeouts
and nothing was received until the next write failed.
---
 givenergy_modbus/client/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 2b7c3fe..34e4fce 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1588,7 +1588,14 @@ class Client:
     async def _task_network_consumer(self):
         """Task for orchestrating incoming data."""
         while hasattr(self, "reader") and self.reader and not self.reader.at_eof():
-            frame = await self.reader.read(300)
+            try:
+                frame = await self.reader.read(300)
+            except OSError as e:
+                # Reset, keepalive timeout, host unreachable, ...: the read fails instead of reaching EOF.
+                if not self._shutting_down:
+                    _logger.warning("network_consumer: socket error during read (%s) — treating connection as lost", e)
+                    self._abort_connection(ConnectionLost(f"socket error during read — connection lost: {e}"))
+                return
             if self._capture_sink is not None and frame and self._capture_redactor_rx is not None:
                 self._emit_to_sink("rx", self._capture_redactor_rx.feed(frame))
             async for message in self.framer.decode(frame):
-- 
2.43.0


From 5585b7cf4da16263336f15d3b8b99eab0480cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 04/31] fix: resolve the caller of a frame whose send was cut
 short by a teardown

When close() or a connection loss cancelled the producer in the middle of a
drain, the already dequeued frame's futures were never resolved: its caller sat
out the stuck-producer timeout, raised a plain TimeoutError and then tore down
whatever connection was current by then, including a healthy new one.
---
 givenergy_modbus/client/client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 34e4fce..d204808 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1674,6 +1674,18 @@ class Client:
                 if self._capture_sink is not None and self._capture_redactor_tx is not None:
                     self._emit_to_sink("tx", self._capture_redactor_tx.feed(message))
                 await asyncio.wait_for(self.writer.drain(), timeout=_DRAIN_TIMEOUT)
+            except asyncio.CancelledError:
+                # Cancelled mid-drain by a teardown or close(). This frame is already dequeued, so
+                # neither queue-drain can reach it — resolve its futures here, the way they would.
+                if self._shutting_down:
+                    if frame_sent:
+                        frame_sent.cancel()
+                else:
+                    exc = ConnectionLost("connection lost while sending")
+                    for fut in (frame_sent, response_future):
+                        if fut is not None and not fut.done():
+                            fut.set_exception(exc)
+                raise
             except TimeoutError:
                 _logger.warning(
                     "network_producer: writer drain stalled >%.0fs — treating connection as lost",
-- 
2.43.0


From c4ee26a99c8977dd91e6c1f9561004c2d974c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 05/31] fix: start every connection with an empty reassembly
 buffer

Bytes of a frame cut off by a connection drop stayed in the framer and were
glued to the first bytes of the next connection, losing its first frames.
---
 givenergy_modbus/client/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index d204808..015ab9e 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -550,6 +550,9 @@ class Client:
             raise CommunicationError(f"Error connecting to {self.host}:{self.port}") from e
         # Only a successful reconnect ends the lost state; until then requests keep failing fast.
         self._connection_lost = False
+        # A partial frame left over from the previous connection must not swallow the first
+        # frames of this one.
+        self.framer = ClientFramer()
         self.network_consumer_task = asyncio.create_task(self._task_network_consumer(), name="network_consumer")
         self.network_producer_task = asyncio.create_task(self._task_network_producer(), name="network_producer")
         # asyncio.create_task(self._task_dump_queues_to_files(), name='dump_queues_to_files'),
-- 
2.43.0


From 958c7d6b98c08e6eb6d1ab590ee427b76e35bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 06/31] fix: do not transmit a cancelled caller's queued frame

---
 givenergy_modbus/client/client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 015ab9e..2744eb3 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1809,6 +1809,9 @@ class Client:
             except TimeoutError as exc:
                 _discard(response_future)
                 raise TimeoutError("TX queue full — producer task has likely died") from exc
+            except asyncio.CancelledError:
+                _discard(response_future)  # in case it did get queued
+                raise
             if self._connection_lost:
                 # Lost the race with _abort_connection's queue-drain: our frame was
                 # enqueued after the drain and will never be sent. _discard cancels the
@@ -1829,6 +1832,11 @@ class Client:
             )
             try:
                 await asyncio.wait_for(frame_sent, timeout=frame_sent_timeout)
+            except asyncio.CancelledError:
+                # The caller gave up while the frame was still queued: have the producer skip it
+                # rather than transmit it later, possibly on another connection.
+                _discard(response_future)
+                raise
             except ConnectionLost:
                 # Teardown failed this frame's future — propagate the typed signal.
                 _discard(response_future)
-- 
2.43.0


From 6a21f09d83e5ff872d652d0cc1be37f57a05fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 07/31] fix: a call left over from an earlier connection does
 not tear down the new one

---
 givenergy_modbus/client/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 2744eb3..5159d40 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1804,6 +1804,7 @@ class Client:
             response_future: Future[TransparentResponse] = asyncio.get_running_loop().create_future()
             self.expected_responses[expected_shape_hash] = response_future
             frame_sent = asyncio.get_running_loop().create_future()
+            producer = self.network_producer_task
             try:
                 await asyncio.wait_for(self.tx_queue.put((raw_frame, frame_sent, response_future)), timeout=5.0)
             except TimeoutError as exc:
@@ -1846,7 +1847,8 @@ class Client:
                 # wedged somewhere unknown — a genuine bug. Tear down so the
                 # system recovers, and keep the honest 'stuck' signal.
                 _discard(response_future)
-                self._abort_connection(ConnectionLost("producer stuck — tearing down"))
+                if self.network_producer_task is producer:  # a reconnect's producer isn't to blame
+                    self._abort_connection(ConnectionLost("producer stuck — tearing down"))
                 raise TimeoutError("Producer task is stuck — frame not sent") from exc
             try:
                 await asyncio.wait_for(response_future, timeout=timeout)
-- 
2.43.0


From 6c801c6815ff899d56abce600a6ecbb5d8ec59ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 08/31] fix: close() does not forget a call made while a
 reconnect is closing

---
 givenergy_modbus/client/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 5159d40..2f0895d 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -568,6 +568,9 @@ class Client:
                 _, frame_sent, _ = self.tx_queue.get_nowait()
                 if frame_sent:
                     frame_sent.cancel()
+        # Forget calls in flight now, not below: one made while this is still closing (during a
+        # reconnect) is sent on the next connection and must be able to receive its answer there.
+        self.expected_responses = {}
         if self.network_producer_task:
             self.network_producer_task.cancel()
         if hasattr(self, "writer") and self.writer:
@@ -592,7 +595,6 @@ class Client:
             self.reader.set_exception(RuntimeError("cancelling"))
             del self.reader
 
-        self.expected_responses = {}
         # self.debug_frames = {
         #     'all': Queue(maxsize=1000),
         #     'error': Queue(maxsize=1000),
-- 
2.43.0


From e2e0e0923ed882d8ef6aab39b4be2c1ec0b2bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 09/31] fix: frame recovery does not depend on where the stream
 is split

---
 givenergy_modbus/framer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/givenergy_modbus/framer.py b/givenergy_modbus/framer.py
index e7f637e..8ce4c10 100644
--- a/givenergy_modbus/framer.py
+++ b/givenergy_modbus/framer.py
@@ -202,6 +202,13 @@ class Framer(ABC):
                 )
                 break
 
+            # The proximity check above needs a whole marker to be in the buffer. For the shortest frames that takes
+            # more than the frame itself, so if the tail could be the start of such a marker its remaining bytes decide:
+            # the outcome must not depend on where the stream happened to be split.
+            if any(HEADER_START_MARKER.startswith(self._buffer[i:]) for i in range(15, min(18, len(self._buffer)))):
+                _logger.debug("Possible frame start at the end of the buffer, await more data")
+                break
+
             # Extract the frame and try to decode it
             frame = self._buffer[:frame_len]
             self._buffer = self._buffer[frame_len:]
-- 
2.43.0


From 1e73f2d71a3d4498c915afcb0eaceecde3eb4e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 10/31] fix: a battery baseline of dead cells does not block
 recovery

---
 givenergy_modbus/model/plant.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index b1545e7..7b8d446 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -1229,7 +1229,12 @@ class Plant(GivEnergyBaseModel):
         # through cold-start corroboration to re-seed. Checked BEFORE the pending-baseline pop below
         # so the held first healthy frame survives to be corroborated by the next poll.
         cache_present = {i for i in range(60) if cache.get(IR(BANK_BASE + i)) is not None}
-        if is_internally_impossible(prev, cache_present) and not is_internally_impossible(new, incoming_present):
+        # A baseline whose cells are all 0 V with no firmware/capacity known (seeded by a short read of a
+        # pack that was not answering yet) is as unrecoverable, so live cells re-seed it the same way.
+        dead_cells = cache_present.issuperset(range(16)) and not any(prev[:16])
+        if (is_internally_impossible(prev, cache_present) and not is_internally_impossible(new, incoming_present)) or (
+            dead_cells and any(new[:16])
+        ):
             _logger.warning(
                 "Battery bank for device 0x%02x: last-good baseline is internally impossible (all "
                 "cells 0 with firmware/capacity present) — re-seeding from corroborated live reads. "
-- 
2.43.0


From e76dafe192797007195dd033fdb2467dd680796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 11/31] fix: poll a bank whose age is negative because the
 clock was stepped back

---
 givenergy_modbus/client/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 2f0895d..bda7ace 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -365,7 +365,7 @@ def _refresh_ranges(
             continue
         if max_age is not None:
             age = plant.block_age(addr, "IR", base, count, now=now)
-            if age is not None and age <= max_age:
+            if age is not None and 0 <= age <= max_age:  # a negative age (clock stepped back) proves nothing
                 _logger.debug(
                     "refresh: skipping IR(%d,%d)@0x%02x — %.1fs ≤ %.1fs max_age",
                     base,
-- 
2.43.0


From 7b5ba4866c944107118954cae6aba88a655a3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 12/31] fix: a BCU found again by a hinted detect() is polled
 again

---
 givenergy_modbus/client/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index bda7ace..ad7e1a4 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -715,6 +715,10 @@ class Client:
                     bcu_cache = self.plant.register_caches.get(0x70 + offset, RegisterCache())
                     actual_modules = _bcu_module_count(bcu_cache)
                     caps.bcu_stacks.append((offset, actual_modules))
+                    # The BCU is back: an absence an earlier cold detect() recorded for the full
+                    # bank (which this short read does not stamp) must not keep refresh() off it.
+                    if self.plant.block_present(0x70 + offset, "IR", 60, 60) is False:
+                        del self.plant.register_block_present[(0x70 + offset, "IR", 60, 60)]
                 else:
                     self.plant.mark_absent(0x70 + offset, "IR", 60, 5)
                     self.plant.register_caches.pop(0x70 + offset, None)
-- 
2.43.0


From 25afc2007d536fd6a33c1d29843da5e92c280541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:41 +0000
Subject: [PATCH 13/31] fix: a link lost during detect() is not taken for an
 absent device

---
 givenergy_modbus/client/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index ad7e1a4..175a723 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -655,6 +655,8 @@ class Client:
                 request, timeout=timeout, retries=retries, retry_delay=0, warn_timeout=False
             )
             return True
+        except ConnectionLost:
+            raise  # a dead connection says nothing about whether the device is present
         except TimeoutError:
             return False
 
@@ -770,6 +772,8 @@ class Client:
                 timeout=timeout,
                 retries=retries,
             )
+        except ConnectionLost:
+            raise  # best-effort about the data, not about the link detection runs over
         except TimeoutError:
             _logger.warning("detect: EMS rollup read at IR(2040,55) timed out — skipping cross-check")
             return
-- 
2.43.0


From 126288c66af3afebad9ff81f09062383ba50d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:39 +0000
Subject: [PATCH 14/31] fix: replies to heartbeats of a closing connection are
 not sent on the next one

---
 givenergy_modbus/client/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 175a723..08c9007 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -573,6 +573,10 @@ class Client:
         self.expected_responses = {}
         if self.network_producer_task:
             self.network_producer_task.cancel()
+        # Before awaiting anything: blocked on the queue just drained, the consumer would go on to
+        # queue heartbeat replies of this connection, to be sent on the next one.
+        if self.network_consumer_task:
+            self.network_consumer_task.cancel()
         if hasattr(self, "writer") and self.writer:
             writer = self.writer
             del self.writer
@@ -588,8 +592,6 @@ class Client:
             finally:
                 writer.transport.abort()  # no-op once closed; otherwise release the socket now
 
-        if self.network_consumer_task:
-            self.network_consumer_task.cancel()
         if hasattr(self, "reader") and self.reader:
             self.reader.feed_eof()
             self.reader.set_exception(RuntimeError("cancelling"))
-- 
2.43.0


From 659ecd2106e043443b48ff30c213e71359054dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:59 +0000
Subject: [PATCH 15/31] fix: a capture delimits frames the way the client does

---
 givenergy_modbus/client/client.py | 39 ++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 08c9007..5ee976e 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -146,23 +146,39 @@ class FrameRedactor:
                 _logger.debug("FrameRedactor: %db inter-frame garbage emitted intact", len(garbage))
                 out += garbage
                 continue
-            # Marker is at position 0. Read the length field to know frame size.
-            if len(self._buf) < 6:
-                break  # not enough bytes for the MBAP length field yet
-            hdr_len = int.from_bytes(self._buf[4:6], "big")
-            if hdr_len > 300:
+            # Marker is at position 0. From here on delimit frames exactly the way framer.py does:
+            # a frame the client goes on to decode must be one that is redacted here, not part of
+            # something emitted intact.
+            if len(self._buf) < 18:
+                break  # shorter than any frame
+            next_marker_pos = self._buf.find(_FRAME_MARKER, 1)
+            if 0 < next_marker_pos < 18:
+                garbage, self._buf = self._buf[:next_marker_pos], self._buf[next_marker_pos:]
+                _logger.debug("FrameRedactor: %db of a truncated frame emitted intact", len(garbage))
+                out += garbage
+                continue
+            hdr_len, u_id, f_id = int.from_bytes(self._buf[4:6], "big"), self._buf[6], self._buf[7]
+            if hdr_len > 300 or u_id not in (0, 1) or f_id not in (1, 2):
                 # A real frame's MBAP length never exceeds ~300 (60-register cap). A larger
                 # value means this marker is a false positive (random bytes that happen to
                 # match) — emit it intact as garbage and resume scanning, rather than buffering
                 # up to ~64 KB for a frame that will never complete. Mirrors framer.py's guard.
                 skip = len(_FRAME_MARKER)
                 garbage, self._buf = self._buf[:skip], self._buf[skip:]
-                _logger.debug("FrameRedactor: false marker (len=0x%04x), %db emitted intact", hdr_len, len(garbage))
+                _logger.warning(
+                    "FrameRedactor: not a frame header (len=0x%04x, u_id=0x%02x, f_id=0x%02x), %db emitted intact",
+                    hdr_len,
+                    u_id,
+                    f_id,
+                    len(garbage),
+                )
                 out += garbage
                 continue
             frame_len = 6 + hdr_len
             if len(self._buf) < frame_len:
                 break  # partial frame — wait for more data
+            if any(_FRAME_MARKER.startswith(self._buf[i:]) for i in range(15, min(18, len(self._buf)))):
+                break  # possible frame start at the end of the buffer, as in framer.py
             frame, self._buf = self._buf[:frame_len], self._buf[frame_len:]
             out += self._redact_frame(frame)
         return out
@@ -553,6 +569,7 @@ class Client:
         # A partial frame left over from the previous connection must not swallow the first
         # frames of this one.
         self.framer = ClientFramer()
+        self._flush_capture()
         self.network_consumer_task = asyncio.create_task(self._task_network_consumer(), name="network_consumer")
         self.network_producer_task = asyncio.create_task(self._task_network_producer(), name="network_producer")
         # asyncio.create_task(self._task_dump_queues_to_files(), name='dump_queues_to_files'),
@@ -1530,6 +1547,12 @@ class Client:
         except Exception:  # noqa: BLE001 — a capture sink must never break the client
             _logger.exception("capture sink raised on %s frame; dropping it and continuing", direction)
 
+    def _flush_capture(self) -> None:
+        """Emit what the redactors of a running capture hold of an incomplete frame, which nothing will complete."""
+        for direction, redactor in (("rx", self._capture_redactor_rx), ("tx", self._capture_redactor_tx)):
+            if redactor is not None:
+                self._emit_to_sink(direction, redactor.flush())  # type: ignore[arg-type]
+
     async def capture_frames(
         self,
         sink: Callable[[Direction, bytes], None],
@@ -1563,9 +1586,7 @@ class Client:
             await asyncio.sleep(duration)
         finally:
             # Flush each direction's held tail so the final bytes aren't lost.
-            for direction, redactor in (("rx", self._capture_redactor_rx), ("tx", self._capture_redactor_tx)):
-                if redactor is not None:
-                    self._emit_to_sink(direction, redactor.flush())  # type: ignore[arg-type]
+            self._flush_capture()
             self._capture_sink = None
             self._capture_redactor_rx = None
             self._capture_redactor_tx = None
-- 
2.43.0


From c183650f0cf4f7e826a830fb3f91de8f3bf1b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 16/31] fix: a capture keeps the header and trailing bytes of
 the frames it redacts

---
 givenergy_modbus/client/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 5ee976e..4d9dd7c 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -203,7 +203,7 @@ class FrameRedactor:
 
         # LanConfigBroadcast: delegate to its own redact() — handles serial + IPs
         if isinstance(pdu, LanConfigBroadcast):
-            return pdu.redact().encode()
+            return self._reassemble(frame, pdu.redact().encode())
 
         # Redact envelope serials (present on all Transparent PDUs). FAIL-CLOSED
         # (redact_serial_strict): an envelope value that doesn't parse as a GE serial is
@@ -247,7 +247,12 @@ class FrameRedactor:
                 for i in range(g_count):
                     pdu.register_values[offset + i] = int.from_bytes(redacted_bytes[i * 2 : i * 2 + 2], "big")
 
-        return pdu.encode()
+        return self._reassemble(frame, pdu.encode())
+
+    @staticmethod
+    def _reassemble(frame: bytes, redacted: bytes) -> bytes:
+        """Keep what decoding does not cover: the header as received and any bytes after the decoded fields."""
+        return frame[:8] + redacted[8:] + frame[len(redacted) :]
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From fbc560593e1c166e7998dda9fc9cb2e1977b858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 17/31] fix: redacting a LAN broadcast fails closed and drops
 nothing

---
 givenergy_modbus/pdu/lan_config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/pdu/lan_config.py b/givenergy_modbus/pdu/lan_config.py
index ab8b9fc..2488a81 100644
--- a/givenergy_modbus/pdu/lan_config.py
+++ b/givenergy_modbus/pdu/lan_config.py
@@ -136,11 +136,12 @@ class LanConfigBroadcast(ClientIncomingMessage):
         """
         from givenergy_modbus.model.register import Converter
 
-        redacted_serial = Converter.redact_serial(self.data_adapter_serial_number) or ""
+        # Fail closed, as for every envelope serial: an unrecognised value is blanked, not passed through.
+        redacted_serial = Converter.redact_serial_strict(self.data_adapter_serial_number)
         redacted_ip = _zero_ip(self.ip)
         redacted_netmask = _zero_ip(self.netmask)
         redacted_gateway = _zero_ip(self.gateway)
-        new_csv_raw = f",{redacted_ip},{redacted_netmask},{redacted_gateway}\r\n\r\n".encode("latin1")
+        new_csv_raw = _DIGIT_RE.sub(b"0", self._csv_raw)
         return LanConfigBroadcast(
             data_adapter_serial_number=redacted_serial,
             ip=redacted_ip,
-- 
2.43.0


From a586d04d0ee1ea5bdc4d1ee118e8c9d12c48d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:52 +0000
Subject: [PATCH 18/31] fix: a capture redacts meter product identifiers

---
 givenergy_modbus/client/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 4d9dd7c..1ee05d3 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -223,13 +223,19 @@ class FrameRedactor:
         # A serial is stored across 5 consecutive registers; decode the group as a
         # string, apply redact_serial, and re-encode back into register values.
         if isinstance(pdu, ReadRegistersResponse) and not pdu.error:
-            reg_type = "HR" if pdu.transparent_function_code == 3 else "IR"
+            reg_type = {3: "HR", 4: "IR"}.get(pdu.transparent_function_code, "MR")
             win_base = pdu.base_register
             win_end = win_base + len(pdu.register_values)  # safer than register_count
             for g_type, g_base, g_count in _get_serial_groups():
                 if g_type != reg_type:
                     continue
                 g_end = g_base + g_count
+                if reg_type == "MR":
+                    # Meter product identifier: not a GE serial and nothing it could overlap with, so
+                    # blank whatever part of it is present, as RegisterCache.redact_serials does.
+                    for reg in range(max(g_base, win_base), min(g_end, win_end)):
+                        pdu.register_values[reg - win_base] = 0
+                    continue
                 if g_base < win_base or g_end > win_end:
                     continue  # group not fully within this response window
                 offset = g_base - win_base
-- 
2.43.0


From a7de3364d4ce5450c2318626cd607868dc3b76fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 19/31] fix: a frame too short for a LAN broadcast is not
 decoded as one

---
 givenergy_modbus/pdu/lan_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/pdu/lan_config.py b/givenergy_modbus/pdu/lan_config.py
index 2488a81..84838ff 100644
--- a/givenergy_modbus/pdu/lan_config.py
+++ b/givenergy_modbus/pdu/lan_config.py
@@ -50,7 +50,8 @@ class LanConfigBroadcast(ClientIncomingMessage):
     def is_lan_config(cls, remaining_after_serial: bytes) -> bool:
         """Return True if the remaining decoder bytes look like a LAN config broadcast."""
         return (
-            len(remaining_after_serial) >= 8
+            # padding, comma and the 2-byte check: anything shorter would not re-encode to its own length
+            len(remaining_after_serial) >= cls._PAD_LEN + 1 + 2
             # The 6 bytes preceding the null+comma are the zero padding of a real broadcast;
             # requiring them avoids a crafted padding field false-positiving and dropping a
             # valid transparent response (L6).
-- 
2.43.0


From 26a0e951ffa3838a7095ef8e9f3c284e6a122082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 20/31] fix: MockPlant.aclose() must not wait for clients that
 stay connected

Since Python 3.12 Server.wait_closed() waits for every accepted connection to end, so closing the mock while any
client was connected (or stalled with unflushed data) never returned.
---
 givenergy_modbus/testing/mock_plant.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/testing/mock_plant.py b/givenergy_modbus/testing/mock_plant.py
index 6406206..6a3c615 100644
--- a/givenergy_modbus/testing/mock_plant.py
+++ b/givenergy_modbus/testing/mock_plant.py
@@ -321,6 +321,8 @@ class MockPlant:
         # discovery is visible without -v); tests leave it False to stay quiet.
         self.log_writes = log_writes
         self._server: asyncio.AbstractServer | None = None
+        self._writers: set[asyncio.StreamWriter] = set()  # of the connections open right now
+        self._stopping = False
 
     @classmethod
     def from_capture(cls, *paths: str | Path) -> MockPlant:
@@ -423,6 +425,7 @@ class MockPlant:
 
     async def start(self, host: str = "127.0.0.1", port: int = 0) -> tuple[str, int]:
         """Start listening; return the bound (host, port). Use port 0 for an ephemeral port."""
+        self._stopping = False
         self._server = await asyncio.start_server(self._handle, host, port)
         sock = self._server.sockets[0].getsockname()
         _logger.info("MockPlant listening on %s:%s — %d devices seeded", sock[0], sock[1], len(self.devices))
@@ -435,9 +438,13 @@ class MockPlant:
             await self._server.serve_forever()
 
     async def aclose(self) -> None:
-        """Stop the server."""
+        """Stop the server and drop the clients still connected to it."""
         if self._server is not None:
+            self._stopping = True
             self._server.close()
+            # wait_closed() waits for every open connection, which a client may keep forever.
+            for writer in list(self._writers):
+                writer.transport.abort()
             await self._server.wait_closed()
             self._server = None
 
@@ -449,6 +456,9 @@ class MockPlant:
 
     async def _handle(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         framer = ServerFramer()
+        self._writers.add(writer)
+        if self._stopping:  # accepted just before aclose()
+            writer.transport.abort()
         try:
             while not reader.at_eof():
                 data = await reader.read(4096)
@@ -467,6 +477,11 @@ class MockPlant:
             _logger.exception("MockPlant handler error")  # pragma: no cover
         finally:
             writer.close()
+            try:
+                await writer.wait_closed()
+            except OSError:
+                pass
+            self._writers.discard(writer)
 
     def _respond(self, pdu: object) -> bytes | None:
         if isinstance(pdu, WriteHoldingRegisterRequest):
-- 
2.43.0


From eea8dcbab6f4d3858aae7a5ca91c6cf5837bbbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 21/31] fix: a mock plant seeded from a capture stays silent at
 0x32 when nothing is there

A fresh Plant() carries an empty cache for 0x32, so a mock built from a capture answered reads of that absent device
with errors instead of not at all.
---
 givenergy_modbus/testing/mock_plant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/testing/mock_plant.py b/givenergy_modbus/testing/mock_plant.py
index 6a3c615..ad45813 100644
--- a/givenergy_modbus/testing/mock_plant.py
+++ b/givenergy_modbus/testing/mock_plant.py
@@ -510,7 +510,7 @@ class MockPlant:
     ) -> bytes | None:
         reg_type = _READ_REGISTER_TYPE.get(req.transparent_function_code)
         cache = self.devices.get(req.device_address)
-        if cache is None:
+        if not cache:  # a fresh Plant() holds an empty cache for 0x32, whether or not anything is there
             # Absent device address: real hardware doesn't answer at all → no reply (the
             # client times out). This is what detect()'s peripheral probe sweep expects.
             _logger.debug("← no reply (absent device 0x%02x)", req.device_address)
-- 
2.43.0


From a36603344e357814ce0f2927fb6c5ab9272c5961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 22/31] Revert "fix: a mock plant seeded from a capture stays
 silent at 0x32 when nothing is there"

This reverts commit eea8dcbab6f4d3858aae7a5ca91c6cf5837bbbbd.
---
 givenergy_modbus/testing/mock_plant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/testing/mock_plant.py b/givenergy_modbus/testing/mock_plant.py
index ad45813..6a3c615 100644
--- a/givenergy_modbus/testing/mock_plant.py
+++ b/givenergy_modbus/testing/mock_plant.py
@@ -510,7 +510,7 @@ class MockPlant:
     ) -> bytes | None:
         reg_type = _READ_REGISTER_TYPE.get(req.transparent_function_code)
         cache = self.devices.get(req.device_address)
-        if not cache:  # a fresh Plant() holds an empty cache for 0x32, whether or not anything is there
+        if cache is None:
             # Absent device address: real hardware doesn't answer at all → no reply (the
             # client times out). This is what detect()'s peripheral probe sweep expects.
             _logger.debug("← no reply (absent device 0x%02x)", req.device_address)
-- 
2.43.0


From da10e9168b370efc9eafa4187f24f861a752eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 23/31] Revert "fix: MockPlant.aclose() must not wait for
 clients that stay connected"

This reverts commit 26a0e951ffa3838a7095ef8e9f3c284e6a122082.
---
 givenergy_modbus/testing/mock_plant.py | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/givenergy_modbus/testing/mock_plant.py b/givenergy_modbus/testing/mock_plant.py
index 6a3c615..6406206 100644
--- a/givenergy_modbus/testing/mock_plant.py
+++ b/givenergy_modbus/testing/mock_plant.py
@@ -321,8 +321,6 @@ class MockPlant:
         # discovery is visible without -v); tests leave it False to stay quiet.
         self.log_writes = log_writes
         self._server: asyncio.AbstractServer | None = None
-        self._writers: set[asyncio.StreamWriter] = set()  # of the connections open right now
-        self._stopping = False
 
     @classmethod
     def from_capture(cls, *paths: str | Path) -> MockPlant:
@@ -425,7 +423,6 @@ class MockPlant:
 
     async def start(self, host: str = "127.0.0.1", port: int = 0) -> tuple[str, int]:
         """Start listening; return the bound (host, port). Use port 0 for an ephemeral port."""
-        self._stopping = False
         self._server = await asyncio.start_server(self._handle, host, port)
         sock = self._server.sockets[0].getsockname()
         _logger.info("MockPlant listening on %s:%s — %d devices seeded", sock[0], sock[1], len(self.devices))
@@ -438,13 +435,9 @@ class MockPlant:
             await self._server.serve_forever()
 
     async def aclose(self) -> None:
-        """Stop the server and drop the clients still connected to it."""
+        """Stop the server."""
         if self._server is not None:
-            self._stopping = True
             self._server.close()
-            # wait_closed() waits for every open connection, which a client may keep forever.
-            for writer in list(self._writers):
-                writer.transport.abort()
             await self._server.wait_closed()
             self._server = None
 
@@ -456,9 +449,6 @@ class MockPlant:
 
     async def _handle(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         framer = ServerFramer()
-        self._writers.add(writer)
-        if self._stopping:  # accepted just before aclose()
-            writer.transport.abort()
         try:
             while not reader.at_eof():
                 data = await reader.read(4096)
@@ -477,11 +467,6 @@ class MockPlant:
             _logger.exception("MockPlant handler error")  # pragma: no cover
         finally:
             writer.close()
-            try:
-                await writer.wait_closed()
-            except OSError:
-                pass
-            self._writers.discard(writer)
 
     def _respond(self, pdu: object) -> bytes | None:
         if isinstance(pdu, WriteHoldingRegisterRequest):
-- 
2.43.0


From 232c9e3922d1dafe8d4e16ac6da3f88ffd8146ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 24/31] fix: an unknown device type code must not make inverter
 views raise

resolve_model() raises for a device type code of an unknown family; remaining battery energy, the slot map and
plant.inverters let that escape to a caller who merely reads a property.
---
 givenergy_modbus/model/inverter.py | 10 ++++++++--
 givenergy_modbus/model/plant.py    |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/givenergy_modbus/model/inverter.py b/givenergy_modbus/model/inverter.py
index bcf65a5..dab5f15 100644
--- a/givenergy_modbus/model/inverter.py
+++ b/givenergy_modbus/model/inverter.py
@@ -1111,7 +1111,10 @@ class SinglePhaseInverter(  # type: ignore[valid-type,misc]
         arm_fw = self.arm_firmware_version  # type: ignore[attr-defined]
         if dtc is None or arm_fw is None:
             return None
-        model = resolve_model(int(dtc, 16), int(arm_fw))
+        try:
+            model = resolve_model(int(dtc, 16), int(arm_fw))
+        except ValueError:
+            return None  # an unknown device type code: no evidence for either source
         from givenergy_modbus.model.manifest import battery_energy_source
 
         alt = battery_energy_source(model, metric, arm_fw=int(arm_fw))
@@ -1184,7 +1187,10 @@ class SinglePhaseInverter(  # type: ignore[valid-type,misc]
         arm_fw = self.arm_firmware_version  # type: ignore[attr-defined]
         if dtc is None or arm_fw is None:
             return SINGLE_PHASE_SLOTS
-        model = resolve_model(int(dtc, 16), int(arm_fw))
+        try:
+            model = resolve_model(int(dtc, 16), int(arm_fw))
+        except ValueError:
+            return SINGLE_PHASE_SLOTS  # an unknown device type code
         if has_extended_slots(model, int(arm_fw)):
             return EXTENDED_SLOTS
         return SINGLE_PHASE_SLOTS
diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index 7b8d446..377854b 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -2104,7 +2104,10 @@ class Plant(GivEnergyBaseModel):
                 if raw_dtc is None:
                     continue
                 arm_fw = cache.get(HR(21)) or 0
-                model = resolve_model(raw_dtc, arm_fw)
+                try:
+                    model = resolve_model(raw_dtc, arm_fw)
+                except ValueError:
+                    continue  # an unknown device type code: no view to decode it with
                 inv = select_inverter(model, cache)
                 sn = getattr(inv, "serial_number", None)
                 if sn:
-- 
2.43.0


From 5a116ae9f780af120f51d7c46cbb70cb873b2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 25/31] fix: a heartbeat does not stop reception while the
 transmit queue is full

---
 givenergy_modbus/client/client.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 1ee05d3..80e10a6 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -475,6 +475,8 @@ class Client:
     writer: StreamWriter
     network_consumer_task: Task | None
     network_producer_task: Task | None
+    heartbeat_responder_task: Task | None
+    _heartbeat_backlog: Queue[HeartbeatRequest]
 
     # (raw_frame, frame_sent_future, response_future). frame_sent_future is signalled by
     # the producer once the frame has been written; response_future, when present, is
@@ -531,6 +533,7 @@ class Client:
         if splice_reject_heal_seconds is not None:
             self.plant.splice_reject_heal_seconds = splice_reject_heal_seconds
         self.tx_queue = Queue(maxsize=20)
+        self._heartbeat_backlog = Queue()
         self.expected_responses = {}
         self._shutting_down = False
         self._connection_lost = False
@@ -542,6 +545,7 @@ class Client:
         self._eof_last_drop_at: datetime | None = None
         self.network_producer_task: Task | None = None
         self.network_consumer_task: Task | None = None
+        self.heartbeat_responder_task: Task | None = None
         # self.debug_frames = {
         #     'all': Queue(maxsize=1000),
         #     'error': Queue(maxsize=1000),
@@ -583,6 +587,10 @@ class Client:
         self._flush_capture()
         self.network_consumer_task = asyncio.create_task(self._task_network_consumer(), name="network_consumer")
         self.network_producer_task = asyncio.create_task(self._task_network_producer(), name="network_producer")
+        self._heartbeat_backlog = Queue()
+        self.heartbeat_responder_task = asyncio.create_task(
+            self._task_heartbeat_responder(), name="heartbeat_responder"
+        )
         # asyncio.create_task(self._task_dump_queues_to_files(), name='dump_queues_to_files'),
         self.connected = True
         _logger.info(f"Connection established to {self.host}:{self.port}")
@@ -601,8 +609,10 @@ class Client:
         self.expected_responses = {}
         if self.network_producer_task:
             self.network_producer_task.cancel()
-        # Before awaiting anything: blocked on the queue just drained, the consumer would go on to
+        # Before awaiting anything: blocked on the queue just drained, the responder would go on to
         # queue heartbeat replies of this connection, to be sent on the next one.
+        if self.heartbeat_responder_task:
+            self.heartbeat_responder_task.cancel()
         if self.network_consumer_task:
             self.network_consumer_task.cancel()
         if hasattr(self, "writer") and self.writer:
@@ -663,7 +673,7 @@ class Client:
             drained += 1
         # Cancel the sibling task; the noticing task (if any) exits on its own.
         current = asyncio.current_task()
-        for task in (self.network_consumer_task, self.network_producer_task):
+        for task in (self.network_consumer_task, self.network_producer_task, self.heartbeat_responder_task):
             if task is not None and task is not current and not task.done():
                 task.cancel()
         _logger.debug(
@@ -1652,6 +1662,11 @@ class Client:
                     continue
                 if isinstance(message, HeartbeatRequest):
                     _logger.debug("Responding to HeartbeatRequest")
+                    if self.tx_queue.full() or not self._heartbeat_backlog.empty():
+                        # Waiting for room here would leave the answers that arrive behind this
+                        # heartbeat unread until the requests waiting for them time out.
+                        self._heartbeat_backlog.put_nowait(message)
+                        continue
                     await self.tx_queue.put((message.expected_response().encode(), None, None))
                     continue
                 if not isinstance(message, TransparentResponse):
@@ -1694,6 +1709,12 @@ class Client:
                 _logger.debug("network_consumer: connection lost (reader at EOF) — coalesced, recovering transparently")
             self._abort_connection(ConnectionLost("reader at EOF — connection lost"))
 
+    async def _task_heartbeat_responder(self):
+        """Task for queueing the replies to heartbeats that found ``tx_queue`` full."""
+        while True:
+            message = await self._heartbeat_backlog.get()
+            await self.tx_queue.put((message.expected_response().encode(), None, None))
+
     async def _task_network_producer(self):
         """Producer loop to transmit queued frames with an appropriate delay.
 
-- 
2.43.0


From cef0a90bee7813bb6e8a515cbdebbf7e950eded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 26/31] fix: a call waiting for room in the queue of a closed
 connection is not sent on the next one

---
 givenergy_modbus/client/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 80e10a6..e44a880 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1885,6 +1885,10 @@ class Client:
                 # (the queue-front skip-if-resolved check).
                 _discard(response_future)
                 raise ConnectionLost("connection lost while enqueueing — reconnect before sending")
+            if self.expected_responses.get(expected_shape_hash) is not response_future:
+                # close() ran while this call waited for room in the queue, and its queue-drain is
+                # what made that room: cancel the frame as it did those already queued.
+                frame_sent.cancel()
             # Safety-net wait for the producer to actually send this frame. Worst case the
             # frame sits behind a full queue, and the producer sleeps tx_message_wait + up to
             # tx_jitter (plus a drain) between sends — so scale the bound by the full queue
-- 
2.43.0


From 0a78358501564f1f85de98ea330740856d553b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 27/31] fix: RegisterCache.json() of a populated cache

json.dumps() refuses Register keys, so the documented export raised TypeError for
every cache that held a register. Emit the key form from_json() reads.
---
 givenergy_modbus/model/register_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/register_cache.py b/givenergy_modbus/model/register_cache.py
index 9b7983b..f6d8927 100644
--- a/givenergy_modbus/model/register_cache.py
+++ b/givenergy_modbus/model/register_cache.py
@@ -94,7 +94,7 @@ class RegisterCache(defaultdict[Register, int]):
             This emits **unredacted** serial-number registers (and any other raw values).
             For a share-safe export, redact first: ``cache.redact_serials().json()``.
         """  # noqa: D402,D202,E501
-        return json.dumps(self)
+        return json.dumps({f"{reg.reg_type}({reg.index})": value for reg, value in self.items()})
 
     @classmethod
     def from_json(cls, data: str) -> "RegisterCache":
-- 
2.43.0


From aba5cf7e70ffafefd215b8abbc72fd951f4ddcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 28/31] fix: redact the direct-source caches of a redacted
 plant

Plant.redact() shared _direct_source_caches with the original, so .inverters and
.serial_index of the share-safe copy still showed the real serials.
---
 givenergy_modbus/model/plant.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index 377854b..6da3b61 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -929,7 +929,7 @@ class Plant(GivEnergyBaseModel):
         # Fail closed: redact_serial_strict blanks any unrecognised identifier rather than leaking
         # it verbatim (redact_serial is fail-open). register_block_updated_at is copied so the
         # redacted snapshot stays independent of later updates to the original.
-        return self.model_copy(
+        snapshot = self.model_copy(
             update={
                 "register_caches": {addr: cache.redact_serials() for addr, cache in self.register_caches.items()},
                 "inverter_serial_number": Converter.redact_serial_strict(self.inverter_serial_number),
@@ -938,6 +938,9 @@ class Plant(GivEnergyBaseModel):
                 "register_block_present": dict(self.register_block_present),
             }
         )
+        # .inverters / .serial_index are merged from the direct-source caches too.
+        snapshot._direct_source_caches = [cache.redact_serials() for cache in self._direct_source_caches]
+        return snapshot
 
     @staticmethod
     def _bump(counter: dict[int, int], device_address: int) -> None:
-- 
2.43.0


From 6197d081a4630fd99789696d4fd8f9752fda790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 29/31] fix: a redacted plant is a snapshot of its own

Plant.redact() shared the counters and the private containers with the original, so
later traffic on the live plant changed the exported copy.
---
 givenergy_modbus/model/plant.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index 6da3b61..12f1335 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -1,6 +1,7 @@
 import logging
 import warnings
 from collections.abc import Callable
+from copy import copy
 from datetime import UTC, datetime
 from typing import Any, ClassVar, cast
 
@@ -936,8 +937,16 @@ class Plant(GivEnergyBaseModel):
                 "data_adapter_serial_number": Converter.redact_serial_strict(self.data_adapter_serial_number),
                 "register_block_updated_at": dict(self.register_block_updated_at),
                 "register_block_present": dict(self.register_block_present),
+                "crc_failure_count": dict(self.crc_failure_count),
+                "splice_reject_count": dict(self.splice_reject_count),
+                "splice_held_count": dict(self.splice_held_count),
+                "retry_count": dict(self.retry_count),
+                "cold_start_held_count": dict(self.cold_start_held_count),
             }
         )
+        # model_copy() shares the containers behind the private attributes: copy them as well.
+        for name in type(self).__private_attributes__:
+            setattr(snapshot, name, copy(getattr(self, name)))
         # .inverters / .serial_index are merged from the direct-source caches too.
         snapshot._direct_source_caches = [cache.redact_serials() for cache in self._direct_source_caches]
         return snapshot
-- 
2.43.0


From ee31faac3cf7c10392ceebcdd2cf647f5dab03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 30/31] fix: do not take the serial of a detected LV BCU for
 the inverter's

The BCU answers at 0x31 with its own envelope serial, so every poll of it overwrote
Plant.inverter_serial_number.
---
 givenergy_modbus/model/plant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index 12f1335..1d5535a 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -1019,7 +1019,9 @@ class Plant(GivEnergyBaseModel):
         # (battery pack #1) a pre-#119 persisted capability may still carry until detect()
         # self-heals.
         if device_address in (0x11, 0x31):
-            self.inverter_serial_number = pdu.inverter_serial_number
+            # A detected LV BCU answers at that same 0x31, with a serial of its own.
+            if self.capabilities is None or device_address != self.capabilities.lv_bcu_address:
+                self.inverter_serial_number = pdu.inverter_serial_number
 
         if isinstance(pdu, ReadHoldingRegistersResponse):
             incoming = {HR(k): v for k, v in pdu.to_dict().items()}
-- 
2.43.0


From 52c3141661c738c1c90df47423590752a5f208d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 31/31] fix: do not take the late acknowledgement of an earlier
 write for the awaited one

Acknowledgements were matched by register only, so after a write was given up
its late acknowledgement completed a following write of another value to the same
register: reported as done though dropped, or never sent at all.
---
 givenergy_modbus/client/client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index e44a880..b99f050 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -535,6 +535,7 @@ class Client:
         self.tx_queue = Queue(maxsize=20)
         self._heartbeat_backlog = Queue()
         self.expected_responses = {}
+        self._awaited_write_values: dict[int, int] = {}
         self._shutting_down = False
         self._connection_lost = False
         # Reader-EOF reconnect-churn coalescing state (#355-style, see _note_eof_drop). Persists
@@ -1691,6 +1692,15 @@ class Client:
                     continue
                 future = self.expected_responses.get(message.shape_hash(), None)
                 if future and not future.done():
+                    if (
+                        isinstance(message, WriteHoldingRegisterResponse)
+                        and not message.error
+                        and message.value != self._awaited_write_values.get(message.shape_hash(), message.value)
+                    ):
+                        # An acknowledgement echoes the value written: this one is the late answer to
+                        # an earlier, given-up write to the same register, so keep waiting for ours.
+                        _logger.debug(f"Ignoring acknowledgement of an earlier write: {message}")
+                        continue
                     future.set_result(message)
         if self._shutting_down:
             _logger.debug("network_consumer exiting on intentional shutdown")
@@ -1868,6 +1878,8 @@ class Client:
         while tries <= retries:
             response_future: Future[TransparentResponse] = asyncio.get_running_loop().create_future()
             self.expected_responses[expected_shape_hash] = response_future
+            if isinstance(request, WriteHoldingRegisterRequest):
+                self._awaited_write_values[expected_shape_hash] = request.value
             frame_sent = asyncio.get_running_loop().create_future()
             producer = self.network_producer_task
             try:
-- 
2.43.0

