From f8ce557d7790ed60d22606c584ce64bb111bc6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 01/38] fix: substring filters: skip integer values, match
 across newlines

---
 paf/filter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 22ae626..850a9e6 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -323,15 +323,16 @@ class Substring(Filter):
         if final is not None:
             pattern += re.escape(self.final)
 
-        pattern += "$"
+        pattern += "\\Z"
 
-        self.substring_re = re.compile(pattern)
+        self.substring_re = re.compile(pattern, re.DOTALL)
 
     def match(self, service):
         values = service.get(self.key)
         if values is not None:
             for value in values:
-                if self.substring_re.search(value) is not None:
+                if isinstance(value, str) and \
+                   self.substring_re.search(value) is not None:
                     return True
         return False
 
-- 
2.43.0


From acb51c90df6cbc9a3b22cb9b01fad167bb31c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 02/38] fix: accept and produce escaped exclamation marks in
 filters

---
 paf/filter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 850a9e6..69c5ad4 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -19,6 +19,9 @@ SPECIALS = {
     BEGIN_EXPR, END_EXPR, ANY, ESCAPE, AND, OR, EQUAL, GREATER_THAN, LESS_THAN
 }
 
+# An exclamation mark need not be escaped, except first in a key.
+ESCAPABLE = SPECIALS | {NOT}
+
 
 class ParseError(Exception):
     def __init__(self, state, error_desc):
@@ -69,7 +72,7 @@ def _parse_str(state):
         in_c = state.current()
         special = in_c in SPECIALS
         if escaped:
-            if not special:
+            if in_c not in ESCAPABLE:
                 raise ParseError(state, "Escaped character '%s' is not "
                                  "a special character" % in_c)
             out_str += in_c
@@ -230,7 +233,7 @@ def parse(filter_s):
 def escape(in_str):
     out_str = ""
     for in_c in in_str:
-        if in_c in SPECIALS:
+        if in_c in ESCAPABLE:
             out_str += ESCAPE
         out_str += in_c
     return out_str
-- 
2.43.0


From 40a95d9b39ca826465e9708e0e7f43808f3bb6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 03/38] fix: report too deeply nested filters as parse errors

---
 paf/filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/filter.py b/paf/filter.py
index 69c5ad4..8c42183 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -221,7 +221,10 @@ def parse(filter_s):
 
     state.expect(BEGIN_EXPR)
 
-    filter = _parse(state)
+    try:
+        filter = _parse(state)
+    except RecursionError:
+        raise ParseError(state, "Expression is too deeply nested")
 
     state.expect(END_EXPR)
 
-- 
2.43.0


From c6d5983aa0705944480c45b61f4108d9b4973062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 04/38] fix: tie a reclaimed or captured service to its new
 connection only

A service reclaimed by its former owner stayed on the old, inactive
connection and was not orphaned when the new one went down. A captured
orphan left its former owner's connection and client behind.
---
 paf/sd.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/paf/sd.py b/paf/sd.py
index 160b393..8bac6b6 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -595,11 +595,14 @@ class Client:
                         change.client_id = self.client_id
                 elif service.is_orphan():
                     # previous owner is back
+                    self.capture_service(service)
+
                     with service.modify() as change:
                         change.orphan_since = None
 
             elif generation > service.generation():
-                if self.client_id != service.client_id():
+                if self.client_id != service.client_id() or \
+                   service.is_orphan():
                     self.capture_service(service)
 
                 with service.modify() as change:
@@ -683,11 +686,19 @@ class Client:
 
     def capture_service(self, service):
         victim_client = self.db.get_client(service.client_id())
-        victim_connection = \
-            victim_client.get_service_connection(service)
-        victim_connection.remove_service(service)
+        victim_client.release_service(service)
         self.active_connection.add_service(service)
 
+    def release_service(self, service):
+        connection = self.get_service_connection(service)
+        connection.remove_service(service)
+
+        if connection.is_stale():
+            self.remove_connection(connection)
+
+        if self.is_stale():
+            self.db.remove_client(self)
+
     def remove_service(self, service):
         connection = self.get_service_connection(service)
         connection.remove_service(service)
-- 
2.43.0


From d88e12ca2ff7a1e16be88604d010a218d48e8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:33 +0000
Subject: [PATCH 05/38] fix: deny a changed client id with a fail message
 instead of crashing

---
 paf/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/server.py b/paf/server.py
index 0f85993..95b4d55 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -320,7 +320,7 @@ class Connection:
         elif self.client_id != client_id:
             self.warning("Attempt to change client id denied.",
                          LogCategory.SECURITY)
-            yield ta.fail(fail_reason=proto.FAIL_PERMISSION_DENIED)
+            yield ta.fail(fail_reason=proto.FAIL_REASON_PERMISSION_DENIED)
             return
         elif self.handshaked:
             self.debug("Received hello from client with handshake "
-- 
2.43.0


From baebf2cb710f17341db5f547c49deeeb2701419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 06/38] fix: reject messages that are not objects and strings
 that are not strings

---
 paf/proto.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index eca5883..410e31b 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -56,7 +56,14 @@ class Field:
 
 
 class StringField(Field):
-    pass
+    def pull(self, in_msg, opt=False):
+        value = Field.pull(self, in_msg, opt=opt)
+        if value is None:
+            return None
+        if not isinstance(value, str):
+            raise ProtocolError("Message field %s is not a string" %
+                                self.name)
+        return value
 
 
 NON_NEGATIVE_INT_MAX = (1 << 63) - 1
@@ -367,6 +374,9 @@ class Message:
         try:
             in_msg = json.loads(in_wire_msg.decode('utf-8'))
 
+            if not isinstance(in_msg, dict):
+                raise ProtocolError("Message is not a JSON object")
+
             cmd = FIELD_TA_CMD.pull(in_msg)
             ta_id = FIELD_TA_ID.pull(in_msg)
             msg_type = FIELD_MSG_TYPE.pull(in_msg)
-- 
2.43.0


From 7200692ff9ddc1575248f6aaef5d0644a30831e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 07/38] fix: do not take JSON booleans for integers

---
 paf/proto.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/paf/proto.py b/paf/proto.py
index 410e31b..f135474 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -34,6 +34,11 @@ CMD_PING = 'ping'
 CMD_CLIENTS = 'clients'
 
 
+def is_int(value):
+    # In Python, bool is a subclass of int
+    return isinstance(value, int) and not isinstance(value, bool)
+
+
 class Field:
     def __init__(self, name):
         self.name = name
@@ -74,7 +79,7 @@ class NonNegativeIntField(Field):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, int):
+        if not is_int(value):
             raise ProtocolError("Message field %s is not an integer" %
                                 self.name)
         if value < 0:
@@ -92,7 +97,7 @@ class NonNegativeNumberField(Field):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, (int, float)):
+        if not is_int(value) and not isinstance(value, float):
             raise ProtocolError("Message field %s is not a number" %
                                 self.name)
         if value < 0:
@@ -119,7 +124,7 @@ class PropsField(Field):
             if not isinstance(values, list):
                 raise ProtocolError("Service property value is not a list")
             for value in values:
-                if not isinstance(value, (str, int)):
+                if not isinstance(value, str) and not is_int(value):
                     raise ProtocolError("Service property value is neither "
                                         "string nor integer")
                 props[key].add(value)
-- 
2.43.0


From eecdebf88357156506d37d2fd31dec472355d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 08/38] fix: reject infinite numbers and too deeply nested
 messages as protocol errors

---
 paf/proto.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index f135474..0bfa00a 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -4,6 +4,7 @@
 from enum import Enum, auto
 import collections
 import json
+import math
 
 MIN_VERSION = 2
 MAX_VERSION = 3
@@ -100,6 +101,9 @@ class NonNegativeNumberField(Field):
         if not is_int(value) and not isinstance(value, float):
             raise ProtocolError("Message field %s is not a number" %
                                 self.name)
+        if isinstance(value, float) and not math.isfinite(value):
+            raise ProtocolError("Message field %s is not a finite number" %
+                                self.name)
         if value < 0:
             raise ProtocolError("Message field %s has a negative "
                                 "value %d" % (self.name, value))
@@ -411,7 +415,7 @@ class Message:
 
             return Message(ta_type, ta_id, msg_type, args, optargs)
 
-        except ValueError:
+        except (ValueError, RecursionError):
             raise ProtocolError("Error JSON decoding incoming message")
 
     def __init__(self, ta_type, ta_id, msg_type, args, optargs):
-- 
2.43.0


From 965d633e9a02dc967e1b2a936daa812d442f6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 09/38] fix: reject messages that do not fit the transaction
 they name

---
 paf/server.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paf/server.py b/paf/server.py
index 95b4d55..4330c4c 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -46,6 +46,11 @@ class Transaction:
             raise ProtocolError("Message received in transaction %d is not "
                                 "of a client-generated type" % self.ta_id)
 
+        if in_msg.cmd() != self.ta_type.cmd:
+            raise ProtocolError("Received \"%s\" command message in \"%s\" "
+                                "transaction %d" %
+                                (in_msg.cmd(), self.ta_type.cmd, self.ta_id))
+
         if in_msg.is_request():
             self.request(in_msg)
         else:
@@ -62,6 +67,10 @@ class Transaction:
         self.state = TransactionState.REQUESTED
 
     def inform(self, in_msg):
+        if not self.is_two_way():
+            raise ProtocolError("Inform message received in transaction %d, "
+                                "which is not two-way" % self.ta_id)
+
         if self.state == TransactionState.IDLE:
             raise ProtocolError("Inform message precedes request in "
                                 "transaction %d" % self.ta_id)
-- 
2.43.0


From 552ad3dad59c6663a7ad73a68c470baaaaf641b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 10/38] fix: drop a client sending a bad track message instead
 of crashing

---
 paf/server.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 4330c4c..aa7b4c4 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -430,16 +430,15 @@ class Connection:
         elif track_type == proto.TRACK_TYPE_REPLY:
             if self.track_query_ts is None:
                 raise ProtocolError("Received unsolicited track reply in "
-                                    "track transaction %d", track_type,
-                                    ta.ta_id)
+                                    "track transaction %d" % ta.ta_id)
             self.track_latency = time.time() - self.track_query_ts
             self.track_query_ts = None
             self.debug("Received to track query reply (after %.1f ms)." %
                        (1e3 * self.track_latency), LogCategory.CORE)
         else:
             raise ProtocolError("Received unknown track type \"%s\" in "
-                                "track transaction %d", track_type,
-                                ta.ta_id)
+                                "track transaction %d" % (track_type,
+                                                          ta.ta_id))
 
     def subscribe_request(self, ta, sub_id, filter=None):
         try:
-- 
2.43.0


From 1429c176b197420330adaa5a60671cbbfdfe6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:47 +0000
Subject: [PATCH 11/38] fix: close an accepted connection which could not be
 set up

---
 paf/server.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index aa7b4c4..880b699 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -804,11 +804,17 @@ class Server:
                     try:
                         conn_sock = sock.accept()
                         self.update_source(source)
-                        conn = Connection(self.sd, conn_sock, self.event_loop,
-                                          self, self.conn_handshake_completed,
-                                          self.proto_version_limit,
-                                          self.idle_limit, self.client_idle,
-                                          self.conn_terminated)
+                        try:
+                            conn = Connection(self.sd, conn_sock,
+                                              self.event_loop, self,
+                                              self.conn_handshake_completed,
+                                              self.proto_version_limit,
+                                              self.idle_limit,
+                                              self.client_idle,
+                                              self.conn_terminated)
+                        except xcm.error:
+                            conn_sock.close()
+                            raise
                         self.clientless_connections.add(conn)
                         self.schedule_clean_out()
                     except xcm.error as e:
-- 
2.43.0


From c4775511f6a2e1c29555cc00269fd7f5168849cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:53 +0000
Subject: [PATCH 12/38] fix: survive errors finishing work on a full server's
 socket

---
 paf/server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paf/server.py b/paf/server.py
index 880b699..2fc529a 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -794,7 +794,12 @@ class Server:
     def sock_activate(self):
         for source, sock in self.server_socks.items():
             if self.max_clients_reached():
-                sock.finish()
+                try:
+                    sock.finish()
+                except xcm.error as e:
+                    if e.errno != errno.EAGAIN:
+                        self.debug("Error on server socket: %s" % e,
+                                   LogCategory.PROTOCOL)
                 source.update(0)
             else:
                 batch_size = self.client_capacity_left()
-- 
2.43.0


From 6982e4572d624fc843636ddd294be48a6eaea449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 13/38] fix: drop half-open connections whose hello named a
 known client

---
 paf/server.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 2fc529a..109bc94 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -778,11 +778,9 @@ class Server:
             now = time.time()
             failed = []
             for conn in self.clientless_connections:
-                if conn.client_id is None or \
-                   not self.sd.has_client(conn.client_id):
-                    handshake_time = now - conn.connect_time
-                    if handshake_time > MAX_HANDSHAKE_TIME:
-                        failed.append((conn, handshake_time))
+                handshake_time = now - conn.connect_time
+                if handshake_time > MAX_HANDSHAKE_TIME:
+                    failed.append((conn, handshake_time))
             for conn, handshake_time in failed:
                 self.clean_out_connection(conn, handshake_time)
 
-- 
2.43.0


From ae598b93af9afe727af2dca5ca2eecc1e632b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 14/38] fix: event loop: accept removal of a source whose
 descriptor is closed

Since Python 3.9, unregistering a closed descriptor raises EBADF.
---
 paf/eventloop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 2bcd5d4..e216ef9 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -138,7 +138,7 @@ class EventLoop:
             del self.source_fd[source]
             try:
                 self.epoll.unregister(fd)
-            except FileNotFoundError:
+            except OSError:
                 pass  # fd is closed, and thus removed from epoll
             del self.fd_source[fd]
 
-- 
2.43.0


From 5149dc68374eadee341d8dac4ab83664b8d8c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 15/38] fix: event loop: do not call the timeout handler of a
 removed source

---
 paf/eventloop.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index e216ef9..6d8ba6f 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -181,13 +181,15 @@ class EventLoop:
     def fire_timeouts(self):
         if len(self.source_timeout) > 0:
             now = time.time()
-            active_handlers = []
-            for source, timeout in self.source_timeout.items():
-                if now >= timeout:
+            due_sources = [source for source, timeout
+                           in self.source_timeout.items() if now >= timeout]
+            for source in due_sources:
+                # A handler called earlier in this round may have
+                # removed the source, or changed its timeout.
+                timeout = self.source_timeout.get(source)
+                if timeout is not None and now >= timeout:
                     handler = self.source_handler[source]
-                    active_handlers.append(handler)
-            for handler in active_handlers:
-                handler()
+                    handler()
 
     def fire_actives(self):
         while len(self.source_active) > 0:
-- 
2.43.0


From 9ea274d66bab0a5d879eca19bcd7573d2c0b0ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 16/38] fix: event loop: return after stop also while a source
 is active

---
 paf/eventloop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 6d8ba6f..0fa66bf 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -192,7 +192,7 @@ class EventLoop:
                     handler()
 
     def fire_actives(self):
-        while len(self.source_active) > 0:
+        while len(self.source_active) > 0 and not self._stop:
             source = next(iter(self.source_active))
             handler = self.source_handler[source]
             handler()
-- 
2.43.0


From b6a5853273b3fe467610b264fbfd03205c970dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 17/38] fix: conf: report invalid idle limits and
 non-dictionaries as errors

Both were raised as ValueError, AttributeError or TypeError, which are not
caught by the server's start-up code.
---
 paf/conf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index dcbc308..6874742 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -351,11 +351,11 @@ def assure_tls_addr(field_name, addr):
         raise FormatError(field_name, proto, ["tls", "utls"])
 
 
-def domains_populate(conf, domains, path):
+def domains_populate(conf, domains, domains_path):
     if domains is None:
         return
     for domain_num, domain in enumerate(domains):
-        domain_path = "%s[%d]" % (path, domain_num)
+        domain_path = "%s[%d]" % (domains_path, domain_num)
         assure_type(domain, dict, domain_path)
 
         name = dict_lookup(domain, "name", str, domain_path, required=False)
@@ -363,7 +363,7 @@ def domains_populate(conf, domains, path):
         version_min = proto.MIN_VERSION
         version_max = proto.MAX_VERSION
 
-        version = domain.get("protocol_version")
+        version = dict_lookup(domain, "protocol_version", dict, domain_path)
         if version is not None:
             version_path = "%s.protocol_version" % domain_path
 
@@ -382,7 +382,7 @@ def domains_populate(conf, domains, path):
                                domain_path, default=DEFAULT_IDLE_MAX,
                                required=False)
 
-        idle = domain.get("idle")
+        idle = dict_lookup(domain, "idle", dict, domain_path)
         if idle is not None:
             idle_path = "%s.idle" % domain_path
 
@@ -395,7 +395,11 @@ def domains_populate(conf, domains, path):
             idle_max = dict_lookup(idle, "max", int, idle_path,
                                    default=DEFAULT_IDLE_MAX, required=False)
 
-        idle_limit = sd.IdleLimit(idle_min, idle_max)
+        try:
+            idle_limit = sd.IdleLimit(idle_min, idle_max)
+        except ValueError as e:
+            raise Error("parameter '%s' is invalid: %s" %
+                        (path(domain_path, "idle"), e))
 
         # 'addrs' is a legacy name for 'sockets'
         sockets = dict_lookup(domain, ["sockets", "addrs"], list, domain_path,
-- 
2.43.0


From 5ce99a384d26f68d9e0c8829b5dc12aa5a91816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 18/38] fix: conf: do not ignore max_idle_time when idle has
 only a min

---
 paf/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index 6874742..707f48a 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -393,7 +393,7 @@ def domains_populate(conf, domains, domains_path):
                 raise DuplicateFieldError(domain_path, "max_idle_time")
 
             idle_max = dict_lookup(idle, "max", int, idle_path,
-                                   default=DEFAULT_IDLE_MAX, required=False)
+                                   default=idle_max, required=False)
 
         try:
             idle_limit = sd.IdleLimit(idle_min, idle_max)
-- 
2.43.0


From e0e424804f188dd610abaa3aaaa994b4e9517fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 19/38] fix: conf: validate socket addresses and TLS parameters

---
 paf/conf.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index 707f48a..0fbf5f6 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -17,6 +17,8 @@ DEFAULT_LOG_FILTER = logging.INFO
 DEFAULT_IDLE_MIN = 4
 DEFAULT_IDLE_MAX = 30
 
+TLS_ATTRS = ("cert", "key", "tc", "crl")
+
 
 class Error(Exception):
     def __init__(self, message):
@@ -351,6 +353,13 @@ def assure_tls_addr(field_name, addr):
         raise FormatError(field_name, proto, ["tls", "utls"])
 
 
+def assure_tls_attrs(tls_path, tls_attrs):
+    for name, value in tls_attrs.items():
+        if name not in TLS_ATTRS:
+            raise FormatError("TLS parameter name", name, TLS_ATTRS)
+        assure_type(value, str, path(tls_path, name))
+
+
 def domains_populate(conf, domains, domains_path):
     if domains is None:
         return
@@ -412,14 +421,14 @@ def domains_populate(conf, domains, domains_path):
             if isinstance(socket, str):
                 domain_conf.add_socket(socket, {})
             elif isinstance(socket, dict):
-                if "addr" not in socket:
-                    raise MissingFieldError(socket_path, "addr")
+                addr = dict_lookup(socket, "addr", str, socket_path,
+                                   required=True)
 
-                addr = socket["addr"]
+                tls_attrs = dict_lookup(socket, "tls", dict, socket_path)
 
-                if "tls" in socket:
+                if tls_attrs is not None:
                     assure_tls_addr("%s.addr" % socket_path, addr)
-                    tls_attrs = socket["tls"]
+                    assure_tls_attrs(path(socket_path, "tls"), tls_attrs)
                 else:
                     tls_attrs = {}
 
-- 
2.43.0


From f8db9eef5a5932a6c37e65a2936b7c2fe35269bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 20/38] fix: conf: do not take booleans for integers

---
 paf/conf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index 0fbf5f6..c981059 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -136,7 +136,8 @@ class ResourcesClassConf:
         self.resources = sd.resources(clients=max_clients)
 
     def set_limit(self, name, value):
-        if not isinstance(value, int) or value < 0:
+        if not isinstance(value, int) or isinstance(value, bool) or \
+           value < 0:
             raise FormatError("resource limit", value)
         if name == "clients":
             self.resources[sd.ResourceType.CLIENT] = value
@@ -296,7 +297,9 @@ class Conf:
 
 
 def assure_type(value, value_type, path):
-    if not isinstance(value, value_type):
+    # In Python, a bool is also an int
+    if not isinstance(value, value_type) or \
+       (value_type is int and isinstance(value, bool)):
         raise Error("parameter '%s' has invalid value type: '%s' (expected "
                     "'%s')" % (path, type(value), value_type))
 
-- 
2.43.0


From e219852aa9b16bab8ab99cc7e98261a1f101dd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 21/38] fix: conf: make clearing a resource limit work

A client limit of zero on the command line ended in a TypeError.
---
 paf/conf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index c981059..c8967d6 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -139,6 +139,12 @@ class ResourcesClassConf:
         if not isinstance(value, int) or isinstance(value, bool) or \
            value < 0:
             raise FormatError("resource limit", value)
+        self._assign(name, value)
+
+    def clear_limit(self, name):
+        self._assign(name, None)
+
+    def _assign(self, name, value):
         if name == "clients":
             self.resources[sd.ResourceType.CLIENT] = value
         elif name == "services":
@@ -148,9 +154,6 @@ class ResourcesClassConf:
         else:
             raise FormatError("resource type", name)
 
-    def clear_limit(self, name):
-        self.set_limit(self, name, None)
-
     def get_client_limit(self):
         return self.resources[sd.ResourceType.CLIENT]
 
-- 
2.43.0


From d3660c6b565ae55a77f771623eeb48c1845798bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 22/38] fix: conf: report malformed YAML as a configuration
 error

---
 paf/conf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index c8967d6..6adf202 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -476,6 +476,13 @@ def default():
 def load(conf_file):
     conf = Conf()
     import yaml
-    source = yaml.safe_load(open(conf_file).read())
+    with open(conf_file, "rb") as f:
+        data = f.read()
+    try:
+        source = yaml.safe_load(data)
+    except Exception as e:
+        # Besides YAMLError, malformed scalars, text which cannot be
+        # decoded or too deep nesting results in other exceptions.
+        raise Error("not a valid YAML document: %s" % e)
     populate(conf, source)
     return conf
-- 
2.43.0


From 13cfb4a95c1d6aa3f47a94d1d3122ce4e061953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 23/38] fix: daemon: report invalid option values instead of
 crashing

---
 paf/daemon.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paf/daemon.py b/paf/daemon.py
index b63376e..5efcff1 100644
--- a/paf/daemon.py
+++ b/paf/daemon.py
@@ -158,9 +158,15 @@ def main(argv):
         elif opt == '-u':
             conf.log.set_syslog_socket(optval)
         elif opt == '-l':
-            conf.log.set_filter(optval)
+            try:
+                conf.log.set_filter(optval)
+            except paf.conf.Error as e:
+                early_error("Error in log level option: %s." % e)
         elif opt == '-y':
-            conf.log.set_facility(optval)
+            try:
+                conf.log.set_facility(optval)
+            except paf.conf.Error as e:
+                early_error("Error in log facility option: %s." % e)
         elif opt == '-c':
             try:
                 clients = int(optval)
@@ -170,6 +176,8 @@ def main(argv):
                     conf.resources.total.set_limit("clients", clients)
             except ValueError:
                 early_error("Client limit must be an integer.")
+            except paf.conf.Error as e:
+                early_error("Error in client limit option: %s." % e)
         elif opt == '-r':
             hook = optval
         elif opt == '-v':
-- 
2.43.0


From 996b8d60bc5900262831dfac15a898337717a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 24/38] fix: daemon: close the server sockets when the start-up
 hook fails

---
 paf/daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/daemon.py b/paf/daemon.py
index 5efcff1..add424d 100644
--- a/paf/daemon.py
+++ b/paf/daemon.py
@@ -71,7 +71,7 @@ def run_hook(hook, servers):
     except Exception:
         exception("Error while calling the user-supplied hook \"%s\"." %
                   hook)
-        sys.exit(1)
+        raise
 
 
 def run(conf, hook=None):
-- 
2.43.0


From 0e396f76e169943ed60e56f97590f299bc12b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 25/38] fix: server: close the domain's sockets when one cannot
 be opened

---
 paf/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 109bc94..78055c8 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -709,8 +709,12 @@ class Server:
         self.idle_limit = idle_limit
         self.event_loop = event_loop
         self.server_socks = {}
-        for socket in sockets:
-            self.add_socket(socket)
+        try:
+            for socket in sockets:
+                self.add_socket(socket)
+        except Exception:
+            self.close_server_socks()
+            raise
         for source in self.server_socks.keys():
             self.event_loop.add(source, self.sock_activate)
         self.timer_source = eventloop.Source()
-- 
2.43.0


From 1245220d78c891b1caef6568747485b38cf228ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 26/38] fix: accept the completion of a track transaction in
 the client

---
 paf/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 5948011..e1a0542 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -106,8 +106,9 @@ class Transaction:
                 self.ta_type.ia_type == proto.InteractionType.SINGLE_RESPONSE)
                or
                (self.state == TransactionState.ACCEPTED and
-                self.ta_type.ia_type ==
-                proto.InteractionType.MULTI_RESPONSE))):
+                self.ta_type.ia_type in
+                (proto.InteractionType.MULTI_RESPONSE,
+                 proto.InteractionType.TWO_WAY)))):
             event = EventType.COMPLETE
             self.state = TransactionState.TERMINATED
         elif msg_type == proto.MSG_TYPE_FAIL:
-- 
2.43.0


From 9076e0da1298582a9141c7dcb41ad37b11453500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 27/38] fix: construct a transaction error without a reason

---
 paf/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index e1a0542..e7d5c54 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -35,8 +35,7 @@ class TransactionError(Error):
         if reason is not None:
             message = "Protocol transaction failed: '%s'." % reason
         else:
-            message = "Protocol transaction failed for unknown reason." % \
-                reason
+            message = "Protocol transaction failed for unknown reason."
         Error.__init__(self, message)
 
 
-- 
2.43.0


From 9de37fe16bc1df6c76d572faade5c8c66ac2093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 28/38] fix: report a failed ping, hello or similar call that
 has a reason

---
 paf/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index e7d5c54..541af32 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -155,10 +155,10 @@ class LatencyCall(Call):
         self.start = time.time()
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.latency = time.time() - self.start
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
@@ -187,10 +187,10 @@ class CompleteCall(Call):
     def __init__(self, conn):
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.complete = args
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
-- 
2.43.0


From c674e9e864f040ef318df9007f463e49cce5be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 29/38] fix: destroy the attribute map when an attribute cannot
 be added

---
 paf/xcm.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 258fc3d..3a280f9 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -143,8 +143,12 @@ def _attr_map_add(attr_map, attr_name, attr_value):
 
 def _attr_map_create(attrs):
     attr_map = xcm_attr_map_create_c()
-    for attr_name, attr_value in attrs.items():
-        _attr_map_add(attr_map, attr_name, attr_value)
+    try:
+        for attr_name, attr_value in attrs.items():
+            _attr_map_add(attr_map, attr_name, attr_value)
+    except BaseException:
+        xcm_attr_map_destroy_c(attr_map)
+        raise
     return attr_map
 
 
@@ -256,8 +260,8 @@ class ServerSocket(Socket):
         Socket.__init__(self, xcm_socket)
 
     def accept(self, attrs={}):
+        attr_map = _attr_map_create(attrs)
         try:
-            attr_map = _attr_map_create(attrs)
             xcm_socket = xcm_accept_a_c(self.xcm_socket, attr_map)
             if xcm_socket:
                 return ConnectionSocket(xcm_socket)
@@ -268,9 +272,8 @@ class ServerSocket(Socket):
 
 
 def connect(addr, flags=0, attrs={}):
-    attr_map = None
+    attr_map = _attr_map_create(attrs)
     try:
-        attr_map = _attr_map_create(attrs)
         if flags == NONBLOCK:
             _attr_map_add(attr_map, "xcm.blocking", False)
         elif flags != 0:
@@ -285,14 +288,12 @@ def connect(addr, flags=0, attrs={}):
 
 
 def server(addr, attrs={}):
-    attr_map = None
+    attr_map = _attr_map_create(attrs)
     try:
-        attr_map = _attr_map_create(attrs)
         xcm_socket = xcm_server_a_c(addr.encode('utf-8'), attr_map)
         if xcm_socket:
             return ServerSocket(xcm_socket)
         else:
             _raise_io_err()
     finally:
-        if attr_map is not None:
-            xcm_attr_map_destroy_c(attr_map)
+        xcm_attr_map_destroy_c(attr_map)
-- 
2.43.0


From dff08ab18d06d61c24bb5b7063a1177186ca2c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 30/38] fix: report a failure to change the blocking mode

---
 paf/xcm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 3a280f9..c799945 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -177,7 +177,9 @@ class Socket:
 
     @_assure_open
     def set_blocking(self, val):
-        xcm_set_blocking_c(self.xcm_socket, val)
+        rc = xcm_set_blocking_c(self.xcm_socket, val)
+        if rc < 0:
+            _raise_io_err()
 
     @_assure_open
     def is_blocking(self):
-- 
2.43.0


From 6a2c2cec8c7d94449bc6348b350d0ab34632a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 31/38] fix: refuse to use a closed connection or server socket

---
 paf/xcm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paf/xcm.py b/paf/xcm.py
index c799945..323dec7 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -243,12 +243,14 @@ class ConnectionSocket(Socket):
     def __init__(self, xcm_socket):
         Socket.__init__(self, xcm_socket)
 
+    @_assure_open
     def send(self, msg):
         rc = xcm_send_c(self.xcm_socket, msg, len(msg))
         if rc < 0:
             _raise_io_err()
         return rc
 
+    @_assure_open
     def receive(self):
         buf = create_string_buffer(MAX_MSG)
         rc = xcm_receive_c(self.xcm_socket, byref(buf), MAX_MSG)
@@ -261,6 +263,7 @@ class ServerSocket(Socket):
     def __init__(self, xcm_socket):
         Socket.__init__(self, xcm_socket)
 
+    @_assure_open
     def accept(self, attrs={}):
         attr_map = _attr_map_create(attrs)
         try:
-- 
2.43.0


From d5803eb61834259886004ad40cf2ba2217a4ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 32/38] fix: pafc: report that tracking is not supported
 instead of exiting

---
 app/pafc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/pafc b/app/pafc
index 5da2438..3360b07 100755
--- a/app/pafc
+++ b/app/pafc
@@ -235,7 +235,11 @@ class Worker(Thread):
 
     def _cmd_track(self):
         if self.tracker is None:
-            self.tracker = Tracker(self.conn)
+            try:
+                self.tracker = Tracker(self.conn)
+            except client.Error as e:
+                self._fail(e)
+                return
 
             client.wait(self.conn,
                         lambda: self.tracker.accepted or self.tracker.failed)
-- 
2.43.0


From 74fc20525235a5316f71a43767ab68fae09eaccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 33/38] fix: pafc: report unbalanced quotes in services and
 track commands

---
 app/pafc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/pafc b/app/pafc
index 3360b07..1d4f633 100755
--- a/app/pafc
+++ b/app/pafc
@@ -516,7 +516,11 @@ class PafCli(cmd.Cmd):
 
         This command is only available on protocol version 3 connections.
 """
-        args = shlex.split(line)
+        try:
+            args = shlex.split(line)
+        except ValueError as e:
+            print("%s." % e)
+            return
         if len(args) == 0:
             self.worker.cmd_track()
         elif len(args) == 1:
@@ -534,7 +538,11 @@ class PafCli(cmd.Cmd):
     def do_services(self, line):
         """services [<filter-expression>]
         List all services (optionally matching the filter expression)."""
-        args = shlex.split(line)
+        try:
+            args = shlex.split(line)
+        except ValueError as e:
+            print("%s." % e)
+            return
         if len(args) == 1:
             filter = args[0]
         else:
-- 
2.43.0


From 647d7b56c3335f4d3eb81b2e5990867845311335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 34/38] fix: pafc: report numbers the protocol does not allow
 instead of sending them

---
 app/pafc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/app/pafc b/app/pafc
index 1d4f633..0ad830f 100755
--- a/app/pafc
+++ b/app/pafc
@@ -460,11 +460,26 @@ def parse_props(args):
     return service_props
 
 
+# largest integer the protocol allows
+INT_MAX = (1 << 63) - 1
+
+
+def check_range(value):
+    if value < 0 or value > INT_MAX:
+        raise ValueError("%d is not in the range 0-%d" % (value, INT_MAX))
+    return value
+
+
 def parse_id(id_str):
     try:
-        return int(id_str, 16)
+        value = int(id_str, 16)
     except ValueError:
         raise ValueError("'%s' is not a valid id" % id_str)
+    return check_range(value)
+
+
+def parse_int(int_str):
+    return check_range(int(int_str))
 
 
 class PafCli(cmd.Cmd):
@@ -569,14 +584,14 @@ class PafCli(cmd.Cmd):
             if len(args) == 0:
                 raise ValueError("Missing TTL and generation")
             elif len(args) % 2 != 0:
-                service_id = int(args[0], 16)
-                generation = int(args[1])
-                ttl = int(args[2])
+                service_id = parse_id(args[0])
+                generation = parse_int(args[1])
+                ttl = parse_int(args[2])
                 prop_args = args[3:]
             else:
                 service_id = None
-                generation = int(args[0])
-                ttl = int(args[1])
+                generation = parse_int(args[0])
+                ttl = parse_int(args[1])
                 prop_args = args[2:]
             service_props = parse_props(prop_args)
             self.worker.cmd_publish(service_id, generation, service_props, ttl)
-- 
2.43.0


From 74a42c63d1b8d412a9499bb90324a786b68e8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 35/38] fix: pafc: publish empty values, and a single vertical
 bar as itself

---
 app/pafc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/pafc b/app/pafc
index 0ad830f..b677d68 100755
--- a/app/pafc
+++ b/app/pafc
@@ -449,7 +449,7 @@ def parse_props(args):
     service_props = collections.defaultdict(set)
     for i in range(0, len(args), 2):
         value = args[i+1]
-        if value[0] == '|' and value[-1] == '|':
+        if len(value) >= 2 and value[0] == '|' and value[-1] == '|':
             value = value[1:-1]
         elif value.strip() == value:
             try:
-- 
2.43.0


From c00a646846f0bb4cd3865342fe5f3331e557cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 36/38] fix: pafc: report invalid option values

---
 app/pafc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/app/pafc b/app/pafc
index b677d68..37b1807 100755
--- a/app/pafc
+++ b/app/pafc
@@ -654,6 +654,14 @@ class PafCli(cmd.Cmd):
     do_EOF = do_quit
 
 
+def parse_optval(parse, opt, optval):
+    try:
+        return parse(optval)
+    except ValueError:
+        print("Invalid value '%s' for option %s." % (optval, opt))
+        sys.exit(1)
+
+
 def list_servers(args):
     if len(args) != 1:
         print("Domain is missing.")
@@ -689,15 +697,15 @@ if __name__ == '__main__':
 
         for opt, optval in optlist:
             if opt == '-i':
-                client_id = int(optval, 16)
+                client_id = parse_optval(parse_id, opt, optval)
             elif opt == '-p':
-                proto_version = int(optval)
+                proto_version = parse_optval(parse_int, opt, optval)
                 if proto_version not in client.PROTO_VERSIONS:
                     print("Protocol version %d is not supported." %
                           proto_version)
                     sys.exit(1)
             elif opt == '-n':
-                server_num = int(optval)
+                server_num = parse_optval(parse_int, opt, optval)
             elif opt == '-a':
                 list_servers(args)
             elif opt == '-l':
-- 
2.43.0


From be14e39f2bc45deeba03e3d51091206e23d18715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 37/38] fix: pafc: report that the domains cannot be listed

---
 app/pafc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/pafc b/app/pafc
index 37b1807..e4bb2bd 100755
--- a/app/pafc
+++ b/app/pafc
@@ -679,7 +679,11 @@ def list_domains(args):
         usage(sys.argv[0])
         sys.exit(1)
 
-    domains = client.list_domains()
+    try:
+        domains = list(client.list_domains())
+    except OSError as e:
+        print("Unable to list domains: %s." % e)
+        sys.exit(1)
 
     print('\n'.join(domains))
 
-- 
2.43.0


From 868f315352d86f6b079fc65c01a1e9b609425794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 38/38] fix: log nowhere rather than to the console if no log
 output is enabled

---
 paf/logging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/logging.py b/paf/logging.py
index cbe4df1..ff4f7de 100644
--- a/paf/logging.py
+++ b/paf/logging.py
@@ -26,7 +26,9 @@ def configure(console=True, log_file=None, log_file_backup=0,
               filter_level=logging.INFO):
     logging.basicConfig(level=filter_level)
     if not console:
-        logger.handlers = []
+        # A logger without any handlers makes Python resort to logging
+        # to the console.
+        logger.handlers = [logging.NullHandler()]
     if log_file is not None:
         file_handler = \
             logging.handlers.RotatingFileHandler(log_file,
-- 
2.43.0

