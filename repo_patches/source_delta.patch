From e147ab57558b993d3d54e2344d18ee022a79951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 01/41] fix: check a new block against every existing block of
 its type

add_block stopped looking for overlaps at the first block located after the
new one, and inserted a block higher than all the others at the head of the
list. A block overlapping one further down the list was accepted.
---
 modbus_tk/modbus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 17080d3..3b627d0 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -799,9 +799,9 @@ class Slave(object):
                     raise OverlapModbusBlockError(
                         "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                     )
-                if block.starting_address > starting_address:
-                    index = i
-                    break
+                if block.starting_address < starting_address:
+                    # keep looking for an overlap with the following blocks
+                    index = i + 1
 
             # if the block is ok: register it
             self._blocks[block_name] = (block_type, starting_address)
-- 
2.43.0


From 7547f73bb497e0374c7cd6dea5381265187bed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 02/41] fix: Server.stop joins the running thread, not its
 replacement

The server thread calls _make_thread when it ends. stop could read
self._thread after that and join a thread which was never started
(RuntimeError), while the stopped thread was still terminating.
---
 modbus_tk/modbus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 3b627d0..4d2cf03 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1055,9 +1055,11 @@ class Server(object):
 
     def stop(self):
         """stop the server. It doesn't handle request anymore"""
-        if self._thread.is_alive():
+        # the server thread replaces self._thread when it ends
+        thread = self._thread
+        if thread.is_alive():
             self._go.clear()
-            self._thread.join()
+            thread.join()
 
     def _run_server(self):
         """main function of the main thread"""
-- 
2.43.0


From df0cd7416693c7a4f6571fb664c7b9fee0c3f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 03/41] fix: broadcast to a snapshot of the slaves

Adding or removing a slave from another thread while a broadcast was handled
changed the dictionary being iterated: the remaining slaves missed the
request and the failure was answered.
---
 modbus_tk/modbus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 4d2cf03..3f82764 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -949,8 +949,10 @@ class Databank(object):
             # get the slave and let him executes the action
             if slave_id == 0:
                 # broadcast
-                for key in self._slaves:
-                    self._slaves[key].handle_request(request_pdu, broadcast=True)
+                with self._lock:
+                    slaves = list(self._slaves.values())
+                for slave in slaves:
+                    slave.handle_request(request_pdu, broadcast=True)
                 return
             else:
                 try:
-- 
2.43.0


From 297a4faf3df52d12a4e1bbbfdc9e2a1a2f985834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 04/41] fix: never answer a broadcast, even when handling it
 fails

---
 modbus_tk/modbus.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 3f82764..803b7ec 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -941,7 +941,7 @@ class Databank(object):
         """
         when a request is received, handle it and returns the response pdu
         """
-        request_pdu = ""
+        slave_id, request_pdu = None, ""
         try:
             # extract the pdu and the slave id
             (slave_id, request_pdu) = query.parse_request(request)
@@ -979,6 +979,10 @@ class Databank(object):
             call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
             LOGGER.error("handle request failed: " + str(excpt))
 
+        if slave_id == 0:
+            # never answer to a broadcast
+            return ""
+
         # If the request was not handled correctly, return a server error response
         func_code = 1
         if len(request_pdu) > 0:
-- 
2.43.0


From 6e4449d9897b4280fb9f2d7d660c6f63676eb647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 05/41] fix: RtuOverTcpMaster stops reading when the connection
 is closed

recv returns an empty string for ever once the peer has closed: the loop
never ended and kept the lock shared by all the masters.
---
 modbus_tk/modbus_rtu_over_tcp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index becc866..33eddc3 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -26,6 +26,9 @@ class RtuOverTcpMaster(TcpMaster):
             rcv_byte = self._sock.recv(1)
             if rcv_byte:
                 response += rcv_byte
+            else:
+                # the connection has been closed by the slave
+                break
             if expected_length >= 0 and len(response) >= expected_length:
                 break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
-- 
2.43.0


From 0c0ac3162d11acac430f9292a5108b9e4e5499cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 06/41] fix: RtuOverTcpMaster reads exception responses by
 their own length

An exception response is shorter than most of the expected responses: the
master waited for more bytes and raised a timeout instead of ModbusError.
---
 modbus_tk/modbus_rtu_over_tcp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index 33eddc3..920cee9 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -29,6 +29,9 @@ class RtuOverTcpMaster(TcpMaster):
             else:
                 # the connection has been closed by the slave
                 break
+            if len(response) == 2 and ord(rcv_byte) > 0x80:
+                # exception response: slave + func + exception code + crc1 + crc2
+                length = expected_length = 5
             if expected_length >= 0 and len(response) >= expected_length:
                 break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
-- 
2.43.0


From 55a6c0c5cc7ca255207fbb6b3778659726e1b5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 07/41] fix: mask write keeps the registers of a signed slave
 signed

The result of the masks was stored as an unsigned value. Reading back a
register whose sign bit was set failed (out of range for a signed value).
---
 modbus_tk/modbus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 803b7ec..5a327a4 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -642,7 +642,10 @@ class Slave(object):
         (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
-        block[offset] = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        value = ((block[offset] & and_mask) | (or_mask & ~and_mask)) & 0xffff
+        if not self.unsigned:
+            (value, ) = struct.unpack(">h", struct.pack(">H", value))
+        block[offset] = value
         # returns echo of the command
         return request_pdu[1:]
 
-- 
2.43.0


From 259cfa33a1d24a6733fcbab74d2d2852b08b2269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 08/41] fix: reject multiple writes whose values are truncated

The values present were written before the missing ones raised an error: a
request answered as failed was half applied.
---
 modbus_tk/modbus.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 5a327a4..5e22999 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -624,6 +624,10 @@ class Slave(object):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 10 + byte_count_to_write:
+            # some values are missing: do not write the other ones
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
 
@@ -659,6 +663,10 @@ class Slave(object):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 6 + byte_count:
+            # some values are missing: do not write the other ones
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_address, quantity_of_x)
 
@@ -684,6 +692,10 @@ class Slave(object):
             # maximum allowed size is 1968 coils
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 6 + byte_count:
+            # some values are missing: do not write the other ones
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.COILS, starting_address, quantity_of_x)
 
-- 
2.43.0


From 7481ea87db528ae4c173fd17fb1814fe94f90bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 09/41] fix: read/write multiple registers writes before it
 reads

The Modbus specification of function 23 performs the write operation before
the read: registers both written and read must be returned with their new
values.
---
 modbus_tk/modbus.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 5e22999..201d641 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -608,18 +608,9 @@ class Slave(object):
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
         # look for the block corresponding to the request
-        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
+        read_block, read_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
 
-        # get the values
-        values = block[offset:offset+quantity_of_x_to_read]
-        # write the response header
-        response = struct.pack(">B", 2 * quantity_of_x_to_read)
-        # add the values of every register on 2 bytes
-        for reg in values:
-            fmt = "H" if self.unsigned else "h"
-            response += struct.pack(">"+fmt, reg)
-
-        # write part
+        # write part: the write operation is performed before the read
         if (quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write != (quantity_of_x_to_write * 2)):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
@@ -637,6 +628,15 @@ class Slave(object):
             fmt = "H" if self.unsigned else "h"
             block[offset+i] = struct.unpack(">"+fmt, request_pdu[10+2*i:12+2*i])[0]
 
+        # get the values
+        values = read_block[read_offset:read_offset+quantity_of_x_to_read]
+        # write the response header
+        response = struct.pack(">B", 2 * quantity_of_x_to_read)
+        # add the values of every register on 2 bytes
+        for reg in values:
+            fmt = "H" if self.unsigned else "h"
+            response += struct.pack(">"+fmt, reg)
+
         return response
 
     def _mask_write_register(self, request_pdu):
-- 
2.43.0


From 287306ceb288572248e4eac05bb58b89f758ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 10/41] fix: a ModbusError raised by the handle_request hook is
 answered

The function code was not known yet when the hook was called: the exception
was replaced by an UnboundLocalError.
---
 modbus_tk/modbus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 201d641..58db797 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -750,14 +750,14 @@ class Slave(object):
         """
         # thread-safe
         with self._data_lock:
+            # get the function code
+            (function_code, ) = struct.unpack(">B", request_pdu[0:1])
+
             try:
                 retval = call_hooks("modbus.Slave.handle_request", (self, request_pdu))
                 if retval is not None:
                     return retval
 
-                # get the function code
-                (function_code, ) = struct.unpack(">B", request_pdu[0:1])
-
                 # check if the function code is valid. If not returns error response
                 if function_code not in self._fn_code_map:
                     raise ModbusError(defines.ILLEGAL_FUNCTION)
-- 
2.43.0


From 1d484566c18ca95ef6243caecd28e7a493fce10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 11/41] fix: set_values writes every item of a range

In Python 3 range returns an object which is not a list: it was stored as it
is in the first register and reading this register failed. Several
functional tests set values this way.
---
 modbus_tk/modbus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 58db797..98d4ca9 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -870,6 +870,10 @@ class Slave(object):
             # check that it doesn't write out of the block
             offset = address-block.starting_address
 
+            if hasattr(values, "__iter__"):
+                # any other sequence of values: for example a range in Python 3
+                values = list(values)
+
             size = 1
             if isinstance(values, list) or isinstance(values, tuple):
                 size = len(values)
-- 
2.43.0


From 74465aa2ebba92ec142a478e4f88117b90a8e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 12/41] fix: the TCP server keeps listening when accepting a
 client fails

---
 modbus_tk/modbus_tcp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index e4808e9..1f3c380 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -356,5 +356,7 @@ class TcpServer(Server):
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
                 call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-                sock.close()
-                self._sockets.remove(sock)
+                if sock != self._sock:
+                    # keep on listening when a client can not be accepted
+                    sock.close()
+                    self._sockets.remove(sock)
-- 
2.43.0


From 55307cc11a90060d1c021c5d0a51402ba553ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 13/41] fix: call the hooks without holding the lock of the
 hooks

---
 modbus_tk/hooks.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/modbus_tk/hooks.py b/modbus_tk/hooks.py
index 29f60b6..9909640 100644
--- a/modbus_tk/hooks.py
+++ b/modbus_tk/hooks.py
@@ -99,12 +99,11 @@ def uninstall_hook(name, fct=None):
 def call_hooks(name, args):
     """call the function associated with the hook and pass the given args"""
     with _LOCK:
-        try:
-            for fct in _HOOKS[name]:
-                retval = fct(args)
-                if retval is not None:
-                    return retval
-        except KeyError:
-            pass
-        return None
+        fcts = list(_HOOKS.get(name, ()))
+    # the functions are called without the lock: they may wait for another thread which is calling hooks too
+    for fct in fcts:
+        retval = fct(args)
+        if retval is not None:
+            return retval
+    return None
 
-- 
2.43.0


From af45fe3bf6b1170c7fd85ed31709a7487145bbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 14/41] fix: send the server error responses in a complete
 frame

---
 modbus_tk/modbus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 98d4ca9..972bdac 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1114,6 +1114,9 @@ class Server(object):
             request = retval
 
         response = self._databank.handle_request(query, request)
+        if response and len(response) == 2:
+            # bare pdu of a server error: encapsulate it like any other response
+            response = query.build_response(response)
         retval = call_hooks("modbus.Server.after_handle_request", (self, response))
         if retval:
             response = retval
-- 
2.43.0


From e80379bd3b28d41400bcc4ee4e0a551cb50ed7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 15/41] fix: the master rejects the response to another
 function

---
 modbus_tk/modbus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 972bdac..a46da83 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -376,6 +376,10 @@ class Master(object):
                 # the slave has returned an error
                 exception_code = byte_2
                 raise ModbusError(exception_code)
+            elif return_code != struct.unpack(">B", pdu[0:1])[0]:
+                raise ModbusInvalidResponseError(
+                    "Response function code {0} is different from request function code".format(return_code)
+                )
             else:
                 if is_read_function:
                     # get the values returned by the reading function
-- 
2.43.0


From 1803710da1e7b3172a831cfb123ceb7248dcd058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 16/41] fix: decode the sub-function code of diagnostic
 responses

---
 modbus_tk/modbus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index a46da83..b20414f 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -297,7 +297,8 @@ class Master(object):
                     # copy data in pdu
                     pdu += struct.pack(">B", j)
                 if not data_format:
-                    data_format = ">" + (len(output_value) * "B")
+                    # the response contains the sub-function code before the data
+                    data_format = ">H" + (len(output_value) * "B")
                 if expected_length < 0:
                     # No length was specified and calculated length can be used:
                     # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
-- 
2.43.0


From 911ff04cf90ac81fb02cd1e3ec9af8fe1aa2347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 17/41] fix: the pymodbus client returns the values read

---
 modbus_tk/pymodbusclient.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index c466591..d872c61 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -16,9 +16,7 @@ class PyModbusClientTCP():
 
     def read_input_registers(self, register, num=1):
         ret = self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num)
-        to_array = None
-        to_array = map(to_array, ret)
-        return to_array
+        return list(ret)
 
     def write_single_register(self, register, word):
         self.client.execute(1, cst.WRITE_SINGLE_REGISTER, register, output_value=word)
@@ -28,17 +26,12 @@ class PyModbusClientTCP():
         self.client.execute(1, cst.WRITE_SINGLE_COIL, coil, output_value=value)
 
     def read_coils(self, bit_addr, bit_number=1):
-        self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
-        coils = self.coils[bit_addr:bit_addr+bit_number]
-        to_array = None
-        to_array = map(to_array, coils)
-        return to_array
+        coils = self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
+        return list(coils)
 
     def read_discrete_inputs(self, bit_addr, bit_number=1):
         registers = self.client.execute(1, cst.READ_DISCRETE_INPUTS, bit_addr, bit_number)
-        to_array = None
-        to_array = map(to_array, registers)
-        return to_array
+        return list(registers)
 
     def last_error(self):
         # TODO: Needs to have something here
-- 
2.43.0


From 735b4da16950f41aa53a5fbdcd18a0e9d6dad00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 18/41] fix: encode and decode the RPC messages of the
 simulator in Python 3

---
 modbus_tk/simulator.py            | 6 +++++-
 modbus_tk/simulator_rpc_client.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index a220c52..6318480 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -91,12 +91,16 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         # self.request is the TCP socket connected to the client
         # read the incoming command
         request = self.request.recv(1024).strip()
+        if modbus_tk.utils.PY3:
+            request = request.decode("utf-8", "replace")
         # write to the queue waiting to be processed by the server
         INPUT_QUEUE.put(request)
         # wait for the server answer in the output queue
         response = OUTPUT_QUEUE.get(timeout=5.0)
         # send back the answer
-        self.request.send(response)
+        if modbus_tk.utils.PY3:
+            response = response.encode("utf-8")
+        self.request.sendall(response)
 
 
 class RpcInterface(threading.Thread):
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 28049e7..7bda405 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -28,8 +28,8 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.send(query)
-        response = sock.recv(1024)
+        sock.sendall(query.encode("utf-8"))
+        response = sock.recv(1024).decode("utf-8")
         sock.close()
         return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
 
-- 
2.43.0


From 57c2d811302ed18934278e431628a506bcce715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 19/41] fix: do not truncate the long RPC commands and answers
 of the simulator

---
 modbus_tk/simulator.py            | 14 +++++++++++++-
 modbus_tk/simulator_rpc_client.py | 11 +++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 6318480..8efcbfc 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -86,11 +86,23 @@ class CompositeServer(modbus.Server):
 class RpcHandler(SocketServer.BaseRequestHandler):
     """An instance of this class is created every time an RPC call is received by the server"""
 
+    def _recv_command(self):
+        """read the whole command: it ends with a newline (which may be omitted if nothing follows)"""
+        command = self.request.recv(1024)
+        while command and not command.endswith(b"\n"):
+            if not select.select([self.request], [], [], 0.1)[0]:
+                break
+            data = self.request.recv(1024)
+            if not data:
+                break
+            command += data
+        return command
+
     def handle(self):
         """This function is called automatically by the SocketServer"""
         # self.request is the TCP socket connected to the client
         # read the incoming command
-        request = self.request.recv(1024).strip()
+        request = self._recv_command().strip()
         if modbus_tk.utils.PY3:
             request = request.decode("utf-8", "replace")
         # write to the queue waiting to be processed by the server
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 7bda405..f9c8554 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -28,8 +28,15 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.sendall(query.encode("utf-8"))
-        response = sock.recv(1024).decode("utf-8")
+        sock.sendall((query + "\n").encode("utf-8"))
+        response = b""
+        while True:
+            # the simulator closes the connection after its answer
+            data = sock.recv(1024)
+            if not data:
+                break
+            response += data
+        response = response.decode("utf-8")
         sock.close()
         return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
 
-- 
2.43.0


From 7ac2c359f088b536304e5e2ed685227d644e1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 20/41] fix: give each simulator interface the answer to its
 own command

---
 modbus_tk/simulator.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 8efcbfc..648fc2f 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -47,6 +47,30 @@ INPUT_QUEUE = queue.Queue()
 OUTPUT_QUEUE = queue.Queue()
 
 
+class CommandChannel(object):
+    """gives to each interface the response to its own command: the server answers in the order of the commands"""
+
+    def __init__(self):
+        """Constructor"""
+        self._lock = threading.Lock()
+        # number of commands which have not been answered in time
+        self._nb_late = 0
+
+    def execute(self, command, timeout):
+        """send a command to the server and returns its response"""
+        with self._lock:
+            INPUT_QUEUE.put(command)
+            self._nb_late += 1
+            while True:
+                response = OUTPUT_QUEUE.get(timeout=timeout)
+                self._nb_late -= 1
+                if self._nb_late == 0:
+                    return response
+
+
+COMMAND_CHANNEL = CommandChannel()
+
+
 class CompositeServer(modbus.Server):
     """make possible to have several servers sharing the same databank"""
 
@@ -106,9 +130,8 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         if modbus_tk.utils.PY3:
             request = request.decode("utf-8", "replace")
         # write to the queue waiting to be processed by the server
-        INPUT_QUEUE.put(request)
-        # wait for the server answer in the output queue
-        response = OUTPUT_QUEUE.get(timeout=5.0)
+        # and wait for the server answer in the output queue
+        response = COMMAND_CHANNEL.execute(request, timeout=5.0)
         # send back the answer
         if modbus_tk.utils.PY3:
             response = response.encode("utf-8")
@@ -182,8 +205,7 @@ class ConsoleInterface(threading.Thread):
         while self._go.isSet(): #while app is running
             if self._check_console_input(): #if something to read on the console
                 cmd = sys.stdin.readline() #read it
-                self.inq.put(cmd) #dispatch it tpo the server
-                response = self.outq.get(timeout=2.0) #wait for an answer
+                response = COMMAND_CHANNEL.execute(cmd, timeout=2.0) #dispatch it to the server and wait for an answer
                 sys.stdout.write(response) #write the answer on the console
 
     def close(self):
-- 
2.43.0


From 41ec6a9c319a5dd87dd29983d985fe1467d51b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 21/41] fix: the TCP server survives to more than 1024 open
 files

---
 modbus_tk/modbus_tcp.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 1f3c380..1eb5bdb 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -281,10 +281,21 @@ class TcpServer(Server):
         self._sock.close()
         self._sock = None
 
+    def _get_ready_sockets(self):
+        """wait that there is something to read on some sockets and returns them"""
+        if not hasattr(select, "poll"):
+            return select.select(self._sockets, [], [], 1.0)[0]
+        # select can not handle the file descriptors above FD_SETSIZE (usually 1024)
+        poller = select.poll()
+        for sock in self._sockets:
+            poller.register(sock, select.POLLIN)
+        ready = [fileno for (fileno, _) in poller.poll(1000)]
+        return [sock for sock in self._sockets if sock.fileno() in ready]
+
     def _do_run(self):
         """called in a almost-for-ever loop by the server"""
         # check the status of every socket
-        inputready = select.select(self._sockets, [], [], 1.0)[0]
+        inputready = self._get_ready_sockets()
 
         # handle data on each a socket
         for sock in inputready:
-- 
2.43.0


From 6300ab4fa9b9cf795f1de78f95c34d4ae7865f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 22/41] fix: a slave failing on a broadcast doesn't prevent the
 others from handling it

---
 modbus_tk/modbus.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index b20414f..bcf6b4e 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -976,7 +976,14 @@ class Databank(object):
                 with self._lock:
                     slaves = list(self._slaves.values())
                 for slave in slaves:
-                    slave.handle_request(request_pdu, broadcast=True)
+                    try:
+                        slave.handle_request(request_pdu, broadcast=True)
+                    except ModbusInvalidRequestError:
+                        raise
+                    except Exception as excpt:
+                        # the other slaves must get the request anyway
+                        call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
+                        LOGGER.error("handle broadcast failed: " + str(excpt))
                 return
             else:
                 try:
-- 
2.43.0


From 38f30b19dd4204bf73fec14aeaebda0b3b6b2d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 23/41] fix: the TCP server sends the whole response or closes
 the connection

---
 modbus_tk/modbus_tcp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 1eb5bdb..7a9f9f7 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -357,13 +357,15 @@ class TcpServer(Server):
                                 retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
                                 if retval is not None:
                                     response = retval
-                                sock.send(response)
+                                sock.sendall(response)
                                 call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
                             except Exception as msg:
-                                is_ok = False
                                 LOGGER.error(
                                     "Error while sending on socket %d, Exception occurred: %s", sock.fileno(), msg
                                 )
+                                if isinstance(msg, socket.error):
+                                    # a part of the response may be missing: close the connection
+                                    raise
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
                 call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-- 
2.43.0


From 00ff9c9f00ea5ee87d14a445f1e101c75a655def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 24/41] fix: an empty request or response given by a server
 hook replaces the data

---
 modbus_tk/modbus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index bcf6b4e..8f015a2 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1122,7 +1122,7 @@ class Server(object):
         query = self._make_query()
 
         retval = call_hooks("modbus.Server.before_handle_request", (self, request))
-        if retval:
+        if retval is not None:
             request = retval
 
         response = self._databank.handle_request(query, request)
@@ -1130,7 +1130,7 @@ class Server(object):
             # bare pdu of a server error: encapsulate it like any other response
             response = query.build_response(response)
         retval = call_hooks("modbus.Server.after_handle_request", (self, response))
-        if retval:
+        if retval is not None:
             response = retval
 
         if response and self._verbose:
-- 
2.43.0


From 48edfc7c233d48677ef0bff31250a217fa040069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 25/41] fix: a log handler which fails doesn't disturb the
 traffic

---
 modbus_tk/utils.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/modbus_tk/utils.py b/modbus_tk/utils.py
index 3d6be34..ebf2947 100644
--- a/modbus_tk/utils.py
+++ b/modbus_tk/utils.py
@@ -78,7 +78,12 @@ class ConsoleHandler(logging.Handler):
 
     def emit(self, record):
         """format and print the record on the console"""
-        print(self.format(record))
+        #pylint: disable=broad-except
+        try:
+            print(self.format(record))
+        except Exception:
+            # logging must never disturb what is logged
+            self.handleError(record)
 
 
 class LogitHandler(logging.Handler):
@@ -92,10 +97,15 @@ class LogitHandler(logging.Handler):
 
     def emit(self, record):
         """format and send the record over udp"""
-        data = self.format(record) + "\r\n"
-        if PY3:
-            data = to_data(data)
-        self._sock.sendto(data, self._dest)
+        #pylint: disable=broad-except
+        try:
+            data = self.format(record) + "\r\n"
+            if PY3:
+                data = to_data(data)
+            self._sock.sendto(data, self._dest)
+        except Exception:
+            # logging must never disturb what is logged
+            self.handleError(record)
 
 
 class DummyHandler(logging.Handler):
-- 
2.43.0


From 3e958e91950158c4ee676eaf421a573ae36b116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 26/41] fix: closing the RPC interface of the simulator closes
 its listening socket

---
 modbus_tk/simulator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 648fc2f..23f7496 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -155,6 +155,7 @@ class RpcInterface(threading.Thread):
         try:
             self.rpc_server.shutdown()
             self.join(1.0)
+            self.rpc_server.server_close()
         except Exception:
             LOGGER.warning("An error occurred while closing RPC interface")
 
-- 
2.43.0


From 1fa13a5e44ba66d71bb194da02277cce69054059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 27/41] fix: SimulatorRpcClient.get_values accepts an empty
 list of values

---
 modbus_tk/simulator_rpc_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index f9c8554..d74bd24 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -96,7 +96,7 @@ class SimulatorRpcClient(object):
         """get the values of some registers"""
         query = "get_values %d %s %d %d" % (slave_id, block_name, address, length)
         ret_values = self._rpc_call(query)
-        return tuple([int(val) for val in ret_values.split(' ')])
+        return tuple([int(val) for val in ret_values.split()])
 
     def install_hook(self, hook_name, fct_name):
         """add a hook"""
-- 
2.43.0


From a7fa6bf879194f561bbed0c68c48272c6a393bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 28/41] fix: a silent RPC client doesn't prevent the other ones
 from being answered

---
 modbus_tk/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 23f7496..6ac62d5 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -144,7 +144,9 @@ class RpcInterface(threading.Thread):
     def __init__(self):
         """Constructor"""
         super(RpcInterface, self).__init__()
-        self.rpc_server = SocketServer.TCPServer(("", 2711), RpcHandler)
+        # a client which doesn't send anything must not prevent the other ones from being answered
+        self.rpc_server = SocketServer.ThreadingTCPServer(("", 2711), RpcHandler)
+        self.rpc_server.daemon_threads = True
 
     def run(self):
         """run the server and wait that it returns"""
-- 
2.43.0


From 562226a7fcf4f7b438e64776fc6f04b8e23d4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 29/41] fix: the console of the simulator executes each line it
 gets and stops at the end of the input

---
 modbus_tk/simulator.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 6ac62d5..6a24d3a 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -203,11 +203,26 @@ class ConsoleInterface(threading.Thread):
 
         return False
 
+    def _read_command(self):
+        """read a line on the console"""
+        if os.name == "nt":
+            return sys.stdin.readline()
+        # don't read more than the line: select doesn't know about what is in the buffer of stdin
+        cmd = b""
+        while not cmd.endswith(b"\n"):
+            data = os.read(sys.stdin.fileno(), 1)
+            if not data:
+                break
+            cmd += data
+        return cmd.decode("utf-8", "replace") if modbus_tk.utils.PY3 else cmd
+
     def run(self):
         """read from the console, transfer to the server and write the answer"""
         while self._go.isSet(): #while app is running
             if self._check_console_input(): #if something to read on the console
-                cmd = sys.stdin.readline() #read it
+                cmd = self._read_command() #read it
+                if not cmd: #end of the input
+                    break
                 response = COMMAND_CHANNEL.execute(cmd, timeout=2.0) #dispatch it to the server and wait for an answer
                 sys.stdout.write(response) #write the answer on the console
 
-- 
2.43.0


From eebb5f3f03a4c6ad9cf4e9ebb3bb09d7596c3d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 30/41] fix: the pymodbus adapter works with its default
 timeout, host and port

---
 modbus_tk/pymodbusclient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index d872c61..82bc04c 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -5,7 +5,9 @@ class PyModbusClientTCP():
     """ Client that allows a drop in replacement for pymodbus without any code change """
 
     def __init__(self, host=None, port=None, timeout=None, **kwargs):
-        self.client = modbus_tcp.TcpMaster(host=host, port=port, timeout_in_sec=timeout)
+        settings = {"host": host, "port": port, "timeout_in_sec": timeout}
+        # the settings which are not given are the default ones of the master
+        self.client = modbus_tcp.TcpMaster(**{key: val for (key, val) in settings.items() if val is not None})
 
     def open(self):
         self.client.open()
-- 
2.43.0


From 847d44daad9a7629a5fd8594ff12aacc4a4eb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 31/41] fix: the lock of execute is released when a signal
 comes just after it is acquired

---
 modbus_tk/utils.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/modbus_tk/utils.py b/modbus_tk/utils.py
index ebf2947..5e11d50 100644
--- a/modbus_tk/utils.py
+++ b/modbus_tk/utils.py
@@ -32,15 +32,10 @@ def threadsafe_function(fcn):
         """
         threadsafe = kwargs.pop('threadsafe', True)
         if threadsafe:
-            lock.acquire()
-        try:
-            ret = fcn(*args, **kwargs)
-        except Exception as excpt:
-            raise excpt
-        finally:
-            if threadsafe:
-                lock.release()
-        return ret
+            # with: the lock is released even if a signal (Ctrl-C) comes just after it is acquired
+            with lock:
+                return fcn(*args, **kwargs)
+        return fcn(*args, **kwargs)
     return new
 
 
-- 
2.43.0


From 8bdeb3c391f1bc821f925e74b64910b5335ab6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 32/41] fix: a RtuMaster whose port is closed opens it again
 after an error in close or in an after_close hook

---
 modbus_tk/modbus_rtu.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 11c9ee8..6d91722 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -112,9 +112,13 @@ class RtuMaster(Master):
     def _do_close(self):
         """Close the serial port if still opened"""
         if self._serial.is_open:
-            self._serial.close()
-            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
-            return True
+            try:
+                self._serial.close()
+                call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
+            finally:
+                # if the port is closed, it must be opened again by the next exchange, even after an error of the hook
+                self._is_opened = self._serial.is_open
+        return True
 
     def set_timeout(self, timeout_in_sec, use_sw_timeout=False):
         """Change the timeout value"""
-- 
2.43.0


From e70c7cf766ad72107f640536bc96eaa736518f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 33/41] fix: a RtuServer whose port is lost while it handles a
 request closes and opens it again

---
 modbus_tk/modbus_rtu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 6d91722..242aee3 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -267,8 +267,9 @@ class RtuServer(Server):
             request = utils.to_data('')
             if self._block_on_first_byte:
                 # do a blocking read for first byte
-                self._serial.timeout = None
                 try:
+                    # it raises an exception too if the port is lost
+                    self._serial.timeout = None
                     read_bytes = self._serial.read(1)
                     request += read_bytes
                 except Exception as e:
-- 
2.43.0


From 83e99f6630134b1fe9881a4d51b674ae41c286f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:08 +0000
Subject: [PATCH 34/41] fix: stop of a RtuServer whose serial port is lost ends
 its thread instead of raising OSError

---
 modbus_tk/modbus_rtu.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 242aee3..61d646d 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -243,10 +243,14 @@ class RtuServer(Server):
         # Thanks to _block_on_first_byte, if server thread does start new read
         # it will timeout as it won't be blocking.
         self._block_on_first_byte = False
-        if self._serial.is_open:
-            # cancel any pending read from server thread, it most likely is
-            # blocking read(1) call
-            self._serial.cancel_read()
+        try:
+            if self._serial.is_open:
+                # cancel any pending read from server thread, it most likely is
+                # blocking read(1) call
+                self._serial.cancel_read()
+        except Exception as excpt:
+            # the server thread may be closing and opening again a port which is lost
+            LOGGER.warning("Error while cancelling the pending read: %s", excpt)
         super(RtuServer, self).stop()
 
     def _do_init(self):
-- 
2.43.0


From c2de777d1dbede0aeebf1bc330a9bd1b31a8b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 35/41] fix: a RtuServer which fails to open its lost port
 again does not block in the next read, stop ends it

---
 modbus_tk/modbus_rtu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 61d646d..47180f5 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -279,7 +279,9 @@ class RtuServer(Server):
                 except Exception as e:
                     self._serial.close()
                     self._serial.open()
-                self._serial.timeout = self._timeout
+                finally:
+                    # even if the port can not be opened again yet: the next reads must not block
+                    self._serial.timeout = self._timeout
 
             # Read rest of the request
             while True:
-- 
2.43.0


From 24fbe2829ff9a9c31824e4abb21795d664b0a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:15 +0000
Subject: [PATCH 36/41] fix: uninstall_hook command of the simulator given a
 function uninstalls this function only

---
 modbus_tk/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 6a24d3a..8040435 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -371,8 +371,9 @@ class Simulator(object):
         If no function is given, uninstall all functions
         """
         hook_name = args[1]
+        fct = self._hooks_fct[args[2]] if len(args) > 2 and args[2] else None
         try:
-            hooks.uninstall_hook(hook_name)
+            hooks.uninstall_hook(hook_name, fct)
         except KeyError as exception:
             LOGGER.error(str(exception))
 
-- 
2.43.0


From 09d591f3ac4029987fbd262d89600fc95a7dd7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:15 +0000
Subject: [PATCH 37/41] fix: console of the simulator goes on reading when a
 command is not answered in time

---
 modbus_tk/simulator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 8040435..2c1d6ee 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -223,7 +223,11 @@ class ConsoleInterface(threading.Thread):
                 cmd = self._read_command() #read it
                 if not cmd: #end of the input
                     break
-                response = COMMAND_CHANNEL.execute(cmd, timeout=2.0) #dispatch it to the server and wait for an answer
+                try:
+                    response = COMMAND_CHANNEL.execute(cmd, timeout=2.0) #dispatch it to the server and wait for an answer
+                except queue.Empty:
+                    # the next commands must be read anyway
+                    response = "error: no answer in time\r\n"
                 sys.stdout.write(response) #write the answer on the console
 
     def close(self):
-- 
2.43.0


From aa58d4e26c37885e7ec5dcef0dda888526dcf653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:27 +0000
Subject: [PATCH 38/41] fix: a TCP connection closed by a hook does not end the
 server thread

---
 modbus_tk/modbus_tcp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 7a9f9f7..f9614ac 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -283,6 +283,8 @@ class TcpServer(Server):
 
     def _get_ready_sockets(self):
         """wait that there is something to read on some sockets and returns them"""
+        # forget the connections which have been closed by a hook
+        self._sockets = [sock for sock in self._sockets if sock.fileno() >= 0]
         if not hasattr(select, "poll"):
             return select.select(self._sockets, [], [], 1.0)[0]
         # select can not handle the file descriptors above FD_SETSIZE (usually 1024)
-- 
2.43.0


From 7bc0aab2937278e2a2f4193895cf56676791e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:44 +0000
Subject: [PATCH 39/41] fix: a server which ends with an error releases its
 port, it can be started again

---
 modbus_tk/modbus.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 8f015a2..aeca353 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1102,10 +1102,13 @@ class Server(object):
         """main function of the main thread"""
         try:
             self._do_init()
-            while self._go.isSet():
-                self._do_run()
-            LOGGER.debug("%s has stopped", self.__class__)
-            self._do_exit()
+            try:
+                while self._go.isSet():
+                    self._do_run()
+            finally:
+                # release the port or the sockets, even after an error (of a hook for example)
+                LOGGER.debug("%s has stopped", self.__class__)
+                self._do_exit()
         except Exception as excpt:
             LOGGER.error("server error: %s", str(excpt))
             call_hooks("modbus.Server.on_exception", (self, excpt))
-- 
2.43.0


From 842233f55facde5634a1b61cb86fc803553a21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:11 +0000
Subject: [PATCH 40/41] fix: a server can be started again after an error of
 its on_exception hook, or an exit of its thread

---
 modbus_tk/modbus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index aeca353..dac584e 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1112,8 +1112,9 @@ class Server(object):
         except Exception as excpt:
             LOGGER.error("server error: %s", str(excpt))
             call_hooks("modbus.Server.on_exception", (self, excpt))
-        # make possible to rerun in future
-        self._make_thread()
+        finally:
+            # make possible to rerun in future
+            self._make_thread()
 
     def _handle(self, request):
         """handle a received sentence"""
-- 
2.43.0


From 3af296857b66d0ff248aa7a79ae5ae873959a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:33 +0000
Subject: [PATCH 41/41] fix: masters keep their connection when its file
 descriptor is above 1024

---
 modbus_tk/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/utils.py b/modbus_tk/utils.py
index 5e11d50..96ae550 100644
--- a/modbus_tk/utils.py
+++ b/modbus_tk/utils.py
@@ -39,12 +39,22 @@ def threadsafe_function(fcn):
     return new
 
 
+def _is_readable(sock):
+    """tell if something can be read on the socket, without waiting"""
+    if not hasattr(select, "poll"):
+        return len(select.select([sock], [], [], 0.0)[0]) > 0
+    # select can not handle the file descriptors above FD_SETSIZE (usually 1024)
+    poller = select.poll()
+    poller.register(sock, select.POLLIN)
+    return len(poller.poll(0)) > 0
+
+
 def flush_socket(socks, lim=0):
     """remove the data present on the socket"""
     input_socks = [socks]
     cnt = 0
     while True:
-        i_socks = select.select(input_socks, input_socks, input_socks, 0.0)[0]
+        i_socks = [sock for sock in input_socks if _is_readable(sock)]
         if len(i_socks) == 0:
             break
         for sock in i_socks:
-- 
2.43.0

