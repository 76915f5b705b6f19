From 9009ef4986af06b00c5d537adb64896f2cf11c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:04 +0000
Subject: [PATCH 01/71] fix: reject floats that single precision can't encode

---
 local/templates/primitive.py.j2 | 15 +++++++++++++++
 vtelem/enums/primitive.py       | 21 ++++++++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/local/templates/primitive.py.j2 b/local/templates/primitive.py.j2
index aa7b140..40eac3e 100644
--- a/local/templates/primitive.py.j2
+++ b/local/templates/primitive.py.j2
@@ -6,6 +6,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+from struct import pack
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -43,6 +44,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check that a floating-point value can be encoded (isn't too large)."""
+
+    try:
+        pack("!" + prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -60,6 +71,10 @@ class Primitive(Enum):
         *integer_bounds({{item["bytes"]}}, {{item["signed"]}}),
         integer_can_hold,
     )
+  {% elif item["python"]["type"] == "float" %}
+    {{item["name"]|upper}} = BasePrimitive(
+        "{{item["python"]["serdes"]}}", {{item["python"]["type"]}}, {{item["bytes"]}}, "{{item["name"]}}", {{item["signed"]}}, validate=float_can_hold
+    )
   {% else %}
     {{item["name"]|upper}} = BasePrimitive("{{item["python"]["serdes"]}}", {{item["python"]["type"]}}, {{item["bytes"]}}, "{{item["name"]}}", {{item["signed"]}})
   {% endif %}
diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index b31bb9f..c4431a6 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -1,7 +1,7 @@
 # =====================================
 # generator=datazen
 # version=3.1.0
-# hash=032c71f68572f4af5b6b23fa3cba1cc4
+# hash=e27f436ebfaed039d37b1424ceb11678
 # =====================================
 """
 vtelem - A definition of the supported primitive types for this library.
@@ -11,6 +11,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+from struct import pack
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -48,6 +49,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check that a floating-point value can be encoded (isn't too large)."""
+
+    try:
+        pack("!" + prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -127,8 +138,12 @@ class Primitive(Enum):
         *integer_bounds(8, False),
         integer_can_hold,
     )
-    FLOAT = BasePrimitive("f", float, 4, "float", True)
-    DOUBLE = BasePrimitive("d", float, 8, "double", True)
+    FLOAT = BasePrimitive(
+        "f", float, 4, "float", True, validate=float_can_hold
+    )
+    DOUBLE = BasePrimitive(
+        "d", float, 8, "double", True, validate=float_can_hold
+    )
 
 
 def random_integer(prim: Primitive) -> int:
-- 
2.43.0


From 5dc5d52bc7cc43b8cc9baf97089938f386cc762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:51 +0000
Subject: [PATCH 02/71] fix: forget an oversize frame length once it was
 discarded

---
 vtelem/frame/processor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/frame/processor.py b/vtelem/frame/processor.py
index 8533cf7..397049c 100644
--- a/vtelem/frame/processor.py
+++ b/vtelem/frame/processor.py
@@ -37,6 +37,7 @@ class FrameProcessor:
         # clear buffer state if we get an unreasonable value
         if self.size > mtu:
             self.buffer.reset()
+            self.size = 0
             self.size_stale = True
 
     def process(
-- 
2.43.0


From eb1677fb1da644ceef73d0efb807d44d1e0439eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:10 +0000
Subject: [PATCH 03/71] fix: report malformed frames as undecodable instead of
 raising

---
 vtelem/parsing/encapsulation.py | 23 +++++++++++++++--------
 vtelem/parsing/frames.py        |  3 +++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/vtelem/parsing/encapsulation.py b/vtelem/parsing/encapsulation.py
index 36d6c68..7a36c30 100644
--- a/vtelem/parsing/encapsulation.py
+++ b/vtelem/parsing/encapsulation.py
@@ -57,16 +57,23 @@ def decode_frame(
     """Unpack a frame from an array of bytes."""
 
     buf = ByteBuffer(cast(bytearray, data), False, size)
-    app_id, header = parse_frame_header(buf, expected_id)
 
-    if header is None:
-        assert expected_id is not None
-        LOG.error("id mismatch: %d != %d", app_id, expected_id.get())
-        return None
+    # a frame that's too short, of an unknown type or that refers to unknown
+    # channels can't be decoded
+    try:
+        app_id, header = parse_frame_header(buf, expected_id)
 
-    result = PARSERS.get(header.type, PARSERS[FrameType.INVALID])(
-        header, buf, channel_registry
-    )
+        if header is None:
+            assert expected_id is not None
+            LOG.error("id mismatch: %d != %d", app_id, expected_id.get())
+            return None
+
+        result = PARSERS.get(header.type, PARSERS[FrameType.INVALID])(
+            header, buf, channel_registry
+        )
+    except (AssertionError, ValueError) as exc:
+        LOG.error("couldn't decode frame of %d bytes: %r", size, exc)
+        return None
 
     footer = parse_frame_footer(buf)
     if footer.crc is not None:
diff --git a/vtelem/parsing/frames.py b/vtelem/parsing/frames.py
index a10acad..71e59fb 100644
--- a/vtelem/parsing/frames.py
+++ b/vtelem/parsing/frames.py
@@ -37,6 +37,7 @@ def parse_data_frame(
     for _ in range(header.size):
         chan = {"id": buf.read(DEFAULTS["id"])}
         chan["channel"] = registry.get_item(chan["id"])
+        assert chan["channel"] is not None
         assert not chan["channel"].is_stream
         obj["channels"].append(chan)
 
@@ -59,6 +60,7 @@ def parse_event_frame(
     for _ in range(header.size):
         event = {"id": buf.read(DEFAULTS["id"])}
         event["channel"] = registry.get_item(event["id"])
+        assert event["channel"] is not None
         assert not event["channel"].is_stream
         obj["events"].append(event)
 
@@ -93,6 +95,7 @@ def parse_stream_frame(
 
     obj = {"id": buf.read(DEFAULTS["id"])}
     obj["channel"] = registry.get_item(obj["id"])
+    assert obj["channel"] is not None
     assert obj["channel"].is_stream
     obj["index"] = buf.read(DEFAULTS["count"])
     obj["data"] = buf.read_bytes(header.size * obj["channel"].size())
-- 
2.43.0


From d7bca2aab1b490237b6fdb3b33815edcff8f17db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:10 +0000
Subject: [PATCH 04/71] fix: don't grow a registry when something unknown is
 looked up

---
 vtelem/registry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/registry/__init__.py b/vtelem/registry/__init__.py
index 9ecff56..81c088d 100644
--- a/vtelem/registry/__init__.py
+++ b/vtelem/registry/__init__.py
@@ -49,7 +49,7 @@ class Registry(Generic[T]):
         """Obtain an item's data by its integer identifier."""
 
         with self.lock:
-            result = self.data[self.type_name][item_id]
+            result = self.data[self.type_name].get(item_id)
         return result
 
     def get_id(self, name: str) -> Optional[int]:
@@ -58,7 +58,7 @@ class Registry(Generic[T]):
         """
 
         with self.lock:
-            result = self.data["mappings"][name]
+            result = self.data["mappings"].get(name)
         return result
 
     def add(self, name: str, data: T) -> Tuple[bool, int]:
-- 
2.43.0


From 952193c578c4949d26c0cb1c5453543aa967d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:35 +0000
Subject: [PATCH 05/71] fix: start over message numbers that don't fit the
 field anymore

---
 vtelem/message/framer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index b0a4fbb..d4dd304 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -62,7 +62,11 @@ class MessageFramer(Framer):
                 "total_fragments": total_frames,
             }
         )
+
+        # start over once the field can't hold the next number
+        limit = base_params["message_number"].type.value.max + 1
         self.message_numbers[message_type] += 1
+        self.message_numbers[message_type] %= limit
 
         frames = []
         frame_start = 0
-- 
2.43.0


From 7183cc88090bec60974c6dff79559297fc3ac38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:03 +0000
Subject: [PATCH 06/71] fix: count each fragment of a message once

---
 vtelem/message/cache.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index a8197df..25e359a 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -197,23 +197,25 @@ class MessageCache(DataCache, MessageDispatcher):
             return
 
         # store this message fragment if we don't have it
-        if message.fragment_index not in crc_data:
+        fragments = self.fragment_data[message.type.value].get(message.crc, {})
+        if message.fragment_index not in fragments:
             self.store_fragment(
                 message.type, message.crc, message.fragment_index, message.data
             )
-            crc_data["fragments"] += 1
-
-            # mark this message as complete if we now have all of the fragments
-            if crc_data["fragments"] == message.total_fragments:
-                crc_data["complete"] = True
-                crc_data["number"] = message.number
-
-                # service message consumers
-                full_message = self.content(message.type, message.crc)
-                assert full_message is not None
-                self.service_callbacks(
-                    message.type, full_message[0], full_message[1]
-                )
+            fragments = self.fragment_data[message.type.value][message.crc]
+        crc_data["fragments"] = len(fragments)
+
+        # mark this message as complete if we now have all of the fragments
+        if crc_data["fragments"] == message.total_fragments:
+            crc_data["complete"] = True
+            crc_data["number"] = message.number
+
+            # service message consumers
+            full_message = self.content(message.type, message.crc)
+            assert full_message is not None
+            self.service_callbacks(
+                message.type, full_message[0], full_message[1]
+            )
 
 
 @contextmanager
-- 
2.43.0


From 45b115c8d8c50a761c367a4606056c304202aa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:03 +0000
Subject: [PATCH 07/71] fix: load the fragments of more than one message of a
 type

---
 vtelem/message/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 25e359a..b929628 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -105,11 +105,11 @@ class MessageCache(DataCache, MessageDispatcher):
                 if crc_int not in type_data:
                     type_data[crc_int] = {}
                 crc_data = type_data[crc_int]
-                curr = os.path.join(curr, crc)
+                crc_dir = os.path.join(curr, crc)
 
                 # load all fragments for this message's crc
-                for fragment in os.listdir(curr):
-                    with open(os.path.join(curr, fragment), "rb") as frag:
+                for fragment in os.listdir(crc_dir):
+                    with open(os.path.join(crc_dir, fragment), "rb") as frag:
                         crc_data[int(fragment)] = frag.read()
 
     def store_fragment(
-- 
2.43.0


From cb33031cdbf628b9fe677624122ac7f963cff867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:03 +0000
Subject: [PATCH 08/71] fix: keep a message cache usable after cleaning it

---
 vtelem/message/cache.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index b929628..853422f 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -5,6 +5,7 @@ vtelem - A module implementing a message storage.
 # built-in
 from contextlib import contextmanager
 import os
+import shutil
 from tempfile import TemporaryDirectory
 from typing import Callable, Dict, Iterator, List, Optional, Tuple
 
@@ -66,8 +67,14 @@ class MessageCache(DataCache, MessageDispatcher):
         DataCache.__init__(self, cache_dir)
         MessageDispatcher.__init__(self, initial_callbacks)
 
-        self.fragment_data: dict = {}
         self.fragment_dir = cache_dir + "_fragments"
+        self.init_messages()
+        self.service_all_callbacks()
+
+    def init_messages(self) -> None:
+        """Initialize message storage and load fragments from disk."""
+
+        self.fragment_data: dict = {}
 
         for mtype in MessageType:
             mtype_str = str(mtype.value)
@@ -76,7 +83,13 @@ class MessageCache(DataCache, MessageDispatcher):
             self.fragment_data[mtype.value] = {}
 
         self.load_fragments(self.fragment_dir)
-        self.service_all_callbacks()
+
+    def clean(self) -> None:
+        """Clean messages and their fragments from memory and disk."""
+
+        super().clean()
+        shutil.rmtree(self.fragment_dir)
+        self.init_messages()
 
     def service_all_callbacks(self) -> None:
         """Invoke registered callbacks for all complete messages."""
-- 
2.43.0


From b395b80e81789a6efd51e7db49a427c4b4304870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:28 +0000
Subject: [PATCH 09/71] fix: don't map types that aren't enumerations when
 exporting

---
 vtelem/registry/enum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/registry/enum.py b/vtelem/registry/enum.py
index 4f31e73..2e3e4a3 100644
--- a/vtelem/registry/enum.py
+++ b/vtelem/registry/enum.py
@@ -76,7 +76,9 @@ class EnumRegistry(Registry[UserEnum]):
                 # determine if this enum has already been registered
                 curr_id = registry.get_id(enum_data.name)
                 if curr_id is not None:
-                    expected_id = self.data["global_mappings"][curr_id]
+                    expected_id = self.data["global_mappings"].get(
+                        curr_id, -1
+                    )
                     if expected_id != enum_id:
                         log_str = (
                             "couldn't register '%s', type has value "
-- 
2.43.0


From 03d9c9b8e69962114c2d747110db865663aa3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:28 +0000
Subject: [PATCH 10/71] fix: refuse enumerations that are registered already

---
 vtelem/registry/enum_retry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index 42e0f13..46a0273 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -58,8 +58,9 @@ class EnumRegistry(Serializable, LockEntity):
     def add(self, enum: UserEnum) -> int:
         """Add an enum to the registry."""
 
-        assert enum.name not in self.data
         with self.lock:
+            assert enum.name not in self.enums
+
             # Store a reference to the serializable data directly.
             self.enum_data[enum.name] = enum.data
 
-- 
2.43.0


From 692d130b86f78ed8439d89636630088d0fba8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:28 +0000
Subject: [PATCH 11/71] fix: don't register a channel of an unknown enumeration

---
 vtelem/telemetry/environment.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 4f014c5..ec55ad2 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -100,18 +100,24 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> int:
         """Add a channel that stores an enumeration value."""
 
+        # make sure the enum and its initial value exist before registering
+        # anything
+        enum_type = self.enum_registry.get_id(enum_name)
+        assert enum_type is not None
+        value = None
+        if initial is not None:
+            enum_def = self.enum_registry.get_item(enum_type)
+            assert enum_def is not None
+            value = enum_def.get_value(initial[0])
+
         new_chan = self.add_channel(
             name, DEFAULTS["enum"], rate, track_change, None, commandable
         )
-        enum_type = self.enum_registry.get_id(enum_name)
-        assert enum_type is not None
         self.enum_channel_types[new_chan] = enum_type
         if initial is not None:
             chan = self.registries["channel"].get_item(new_chan)
             assert chan is not None
-            enum_def = self.enum_registry.get_item(enum_type)
-            assert enum_def is not None
-            assert chan.set(enum_def.get_value(initial[0]), initial[1])
+            assert chan.set(value, initial[1])
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From 473d758af53e5059c9698bef5bc469340297358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:39 +0000
Subject: [PATCH 12/71] fix: refuse enumerations named like another type up
 front

---
 vtelem/telemetry/environment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index ec55ad2..676bf64 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -195,6 +195,9 @@ class TelemetryEnvironment(ChannelEnvironment):
         with self.lock:
             if self.has_enum(enum):
                 return self.enum_registry.get_enum(enum)[1]
+
+            # an enum can't be exported under the name of another type
+            assert self.type_registry.get_id(enum.name) is None
             result = self.enum_registry.add_enum(enum)
             assert result[0]
             assert self.enum_registry.export(self.type_registry)
-- 
2.43.0


From a4b409532fdbf13b9654fc7c4e9e54931a26c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:43 +0000
Subject: [PATCH 13/71] fix: don't add names to an enumeration by looking them
 up

---
 vtelem/classes/user_enum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 4b1ade8..5dd05be 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -103,7 +103,7 @@ class UserEnum(Serializable):
     def get_value(self, val: str) -> int:
         """Get the integer value of an enum String."""
 
-        result = self.strings[val.lower()]
+        result = self.strings.get(val.lower())
         assert result is not None
         return result
 
@@ -115,7 +115,7 @@ class UserEnum(Serializable):
         """
 
         result = new_default("enum", changed_cb)
-        val = self.strings[value.lower()]
+        val = self.strings.get(value.lower())
         assert val is not None
         assert result.set(val)
         return result
-- 
2.43.0


From f15f4181296256716afc69330f8bcad27eaeee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:00 +0000
Subject: [PATCH 14/71] fix: refuse enumerations that aren't one-to-one

---
 vtelem/classes/user_enum.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 5dd05be..2f31bf4 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -74,12 +74,21 @@ class UserEnum(Serializable):
 
         # Maintain a reverse mapping for convenience.
         self.coerce_int_keys(["mappings"], data)
-        self.strings = reverse_map(cast(IntStrMap, data["mappings"]))
+        mappings = cast(IntStrMap, data["mappings"])
+        self.strings = reverse_map(mappings)
+
+        # Strings and integers must map one-to-one, and every integer must be
+        # one that an enum primitive can hold.
+        assert len(self.strings) == len(mappings)
+        max_value = 2 ** (get_size(DEFAULTS["enum"]) * 8)
+        assert all(0 <= key < max_value for key in mappings)
 
         # Set a viable default value.
         default = data["default"]
         val = default if default is not None else list(self.strings.keys())[0]
         assert val is not None
+        val = cast(str, val).lower()
+        assert val in self.strings
         data["default"] = val
 
     @property
-- 
2.43.0


From 9941abcfabd4e7752de2a8e97aa1651c4ef5be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:00 +0000
Subject: [PATCH 15/71] fix: initialize enumeration channels to the
 enumeration's default

---
 vtelem/telemetry/environment.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 676bf64..a5882a0 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -104,20 +104,19 @@ class TelemetryEnvironment(ChannelEnvironment):
         # anything
         enum_type = self.enum_registry.get_id(enum_name)
         assert enum_type is not None
-        value = None
-        if initial is not None:
-            enum_def = self.enum_registry.get_item(enum_type)
-            assert enum_def is not None
-            value = enum_def.get_value(initial[0])
+        enum_def = self.enum_registry.get_item(enum_type)
+        assert enum_def is not None
+        if initial is None:
+            initial = (enum_def.default, None)
+        value = enum_def.get_value(initial[0])
 
         new_chan = self.add_channel(
             name, DEFAULTS["enum"], rate, track_change, None, commandable
         )
         self.enum_channel_types[new_chan] = enum_type
-        if initial is not None:
-            chan = self.registries["channel"].get_item(new_chan)
-            assert chan is not None
-            assert chan.set(value, initial[1])
+        chan = self.registries["channel"].get_item(new_chan)
+        assert chan is not None
+        assert chan.set(value, initial[1])
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From 499541786f8784795c0e0ab15d56f8e7aa670f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:56 +0000
Subject: [PATCH 16/71] fix: queue no event for a channel that can't be added

---
 vtelem/channel/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9646f5d..ab33f8f 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -206,6 +206,7 @@ class ChannelEnvironment(TimeEntity):
 
         with self.lock:
             queue = None if not track_change else self.event_queue
+            assert not self.has_channel(name)
             new_chan = Channel(name, instance, rate, queue, commandable)
             if initial is not None:
                 assert new_chan.set(initial[0], initial[1])
-- 
2.43.0


From d06376ff8b5e0e4ba82415042a50e23d2cac2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:08 +0000
Subject: [PATCH 17/71] fix: release a lock also when its body raises

---
 vtelem/classes/time_entity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/time_entity.py b/vtelem/classes/time_entity.py
index 9975a95..bf95f88 100644
--- a/vtelem/classes/time_entity.py
+++ b/vtelem/classes/time_entity.py
@@ -37,10 +37,10 @@ class OptionalRLock(AbstractContextManager):
             self.lock.acquire()
         return self.item
 
-    def __exit__(self, exc_type, __, ___) -> Literal[False]:
-        """Release the lock if no exception was raised."""
+    def __exit__(self, _, __, ___) -> Literal[False]:
+        """Release the lock, also if an exception was raised."""
 
-        if exc_type is None and self.lock is not None:
+        if self.lock is not None:
             self.lock.release()
         return False
 
-- 
2.43.0


From 018c34b0499a5b4972d1b05067ac6df905de91ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 18/71] fix: count queue elements where they are put and taken

---
 vtelem/classes/metered_queue.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/vtelem/classes/metered_queue.py b/vtelem/classes/metered_queue.py
index 48a584a..979a4fb 100644
--- a/vtelem/classes/metered_queue.py
+++ b/vtelem/classes/metered_queue.py
@@ -41,24 +41,22 @@ class MeteredQueue(Queue):
             initial,
         )
 
-    def get(self, block: bool = True, timeout: float = None) -> Any:
-        """Dequeue an element."""
+    def _get(self) -> Any:
+        """Dequeue an element (called while the queue is locked)."""
 
-        result = super().get(block, timeout)
+        result = super()._get()
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", -1, time)
         self.env.metric_add(f"{self.name}.total_dequeued", 1, time)
         return result
 
-    def put(
-        self, item: Any, block: bool = True, timeout: float = None
-    ) -> None:
-        """Enqueue an element."""
+    def _put(self, item: Any) -> None:
+        """Enqueue an element (called while the queue is locked)."""
 
+        super()._put(item)
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", 1, time)
         self.env.metric_add(f"{self.name}.total_enqueued", 1, time)
-        super().put(item, block, timeout)
 
 
 def create(
-- 
2.43.0


From ee5ab6e2a7a238c72756bc937332201344a25d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 19/71] fix: don't scale time that passed before the scale
 changed

---
 vtelem/classes/time_keeper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index d9b4c00..ba55877 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -71,6 +71,8 @@ class TimeKeeper(Daemon):
 
         if scalar >= 0.0:
             with self.lock:
+                # account for the time that passed at the previous scale
+                self.iteration()
                 self.scalar = scalar
 
     def sleep(self, amount: float) -> None:
-- 
2.43.0


From f3fa4b029b34adf53441af307fad3ba3477b6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:27 +0000
Subject: [PATCH 20/71] fix: refuse a time scale of zero

---
 vtelem/classes/time_keeper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index ba55877..700cb1e 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -33,7 +33,7 @@ class TimeKeeper(Daemon):
         self.time_function = time_fn
         self.sleep_function = sleep_fn
         self.scalar = real_scalar
-        assert self.scalar >= 0.0
+        assert self.scalar > 0.0
         self.time = self.time_function()
         self.last_time_eval = self.time
         super().__init__(name, self.iteration, rate)
@@ -69,7 +69,7 @@ class TimeKeeper(Daemon):
     def scale(self, scalar: float) -> None:
         """Change the current time scaling."""
 
-        if scalar >= 0.0:
+        if scalar > 0.0:
             with self.lock:
                 # account for the time that passed at the previous scale
                 self.iteration()
-- 
2.43.0


From 28194bce068d47cfc7784e9ab81886fd502a0c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:37 +0000
Subject: [PATCH 21/71] fix: run steps of a state machine one at a time

---
 vtelem/classes/state_machine.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/vtelem/classes/state_machine.py b/vtelem/classes/state_machine.py
index 0f5c912..e6d2656 100644
--- a/vtelem/classes/state_machine.py
+++ b/vtelem/classes/state_machine.py
@@ -87,10 +87,10 @@ class StateMachine(LockEntity):
             with self.lock:
                 self._data.update(new_data)
 
-        curr = self.states[self.current_state]
-        assert curr is not None
-
         with self.lock:
+            curr = self.states[self.current_state]
+            assert curr is not None
+
             new = curr.run(self._data)
             assert new in self.states
 
@@ -123,14 +123,14 @@ class StateMachine(LockEntity):
                     )
                     exit_failed = True
 
-        # increment metrics
-        if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
-                metrics_data["enter_fails"] += int(enter_failed)
-                metrics_data["exit_fails"] += int(exit_failed)
-                metrics_data["transitions"] += int(transitioned)
-                metrics_data["iterations"] += 1
+            # increment metrics
+            if self.metrics is not None:
+                with self.metrics.data() as metrics_data:
+                    metrics_data["enter_fails"] += int(enter_failed)
+                    metrics_data["exit_fails"] += int(exit_failed)
+                    metrics_data["transitions"] += int(transitioned)
+                    metrics_data["iterations"] += 1
 
-        actual_new = self.states[self.current_state]
-        assert actual_new is not None
+            actual_new = self.states[self.current_state]
+            assert actual_new is not None
         return (curr, actual_new)
-- 
2.43.0


From 4235abdda0a808061e213be214505c8116ee0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 22/71] fix: don't register unknown daemons when looking them
 up

---
 vtelem/daemon/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index 943942e..b38e425 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -35,7 +35,7 @@ class DaemonManager(LockEntity):
         """Get a daemon object by name."""
 
         assert name not in NAME_DENYLIST
-        return self.daemons[name]
+        return self.daemons.get(name)
 
     def add_daemon(
         self, daemon: DaemonBase, depends_on: List[str] = None
-- 
2.43.0


From e753f176137fb6042031c9fb90faf9ae72de5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:30 +0000
Subject: [PATCH 23/71] fix: operate dependencies of a daemon next, not last

---
 vtelem/daemon/manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index b38e425..048eb94 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -81,10 +81,10 @@ class DaemonManager(LockEntity):
                     if dep not in executed:
                         to_execute.append(dep)
 
-            # if we have dependencies, put them in front of us, otherwise
-            # run against the current entry
+            # if we have dependencies, put them above us on the stack,
+            # otherwise run against the current entry
             if to_execute:
-                name_stack = to_execute + [curr] + name_stack
+                name_stack = name_stack + [curr] + to_execute
             else:
                 results[curr] = self.perform(curr, operation, *args, **kwargs)
                 executed.append(curr)
-- 
2.43.0


From 3d86ef1f7730ce34abe5e576b778be1653617688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:33 +0000
Subject: [PATCH 24/71] fix: refuse daemon operations that do nothing

---
 vtelem/daemon/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index d96c747..8b3f983 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -119,7 +119,11 @@ class DaemonBase(TimeEntity):
 
         # set up the actions data
         default: dict = defaultdict(
-            lambda: {"action": lambda: False, "takes_args": False}
+            lambda: {
+                "action": lambda: False,
+                "takes_args": False,
+                "skip_if_state": [],
+            }
         )
         self.daemon_ops: Dict[DaemonOperation, dict] = default
         self.daemon_ops[DaemonOperation.START] = {
-- 
2.43.0


From a6593ec9ce985b7e330fcc32be04c7ef3d1e0984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 25/71] fix: announce state changes of a daemon in their order

---
 vtelem/daemon/__init__.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 8b3f983..95223ee 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -184,17 +184,19 @@ class DaemonBase(TimeEntity):
             transition = old_state != state
             self.state = state
 
-        if transition:
-            self.function["state_change"](old_state, state, self.get_time())
-
-            # set the metric channel
-            if self.env is not None:
-                self.env.set_enum_metric(
-                    self.get_metric_name("state"),
-                    self.get_state_str(),
-                    self.get_time(),
+            if transition:
+                self.function["state_change"](
+                    old_state, state, self.get_time()
                 )
 
+                # set the metric channel
+                if self.env is not None:
+                    self.env.set_enum_metric(
+                        self.get_metric_name("state"),
+                        self.get_state_str(),
+                        self.get_time(),
+                    )
+
         return transition
 
     def set_env_metric(
-- 
2.43.0


From acbd12439748e7031c59325b8a12873517a42963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 26/71] fix: publish counts of a daemon in their order

---
 vtelem/daemon/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 95223ee..f1f0d5a 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -217,7 +217,7 @@ class DaemonBase(TimeEntity):
 
         with self.lock:
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def increment_metric(self, name: str, value: Any = 1) -> None:
         """Increment a named metric."""
@@ -225,7 +225,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] + value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def decrement_metric(self, name: str, value: Any = 1) -> None:
         """Decrement a named metric."""
@@ -233,7 +233,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] - value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def get_state(self) -> DaemonState:
         """Query this daemon's current state."""
-- 
2.43.0


From 9548fdf6d39b7e4932a78303c4ab4e965583863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 27/71] fix: don't stop a daemon that was running when it is
 booted

---
 vtelem/daemon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index f1f0d5a..f16c6af 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -269,8 +269,8 @@ class DaemonBase(TimeEntity):
         automatically stops it.
         """
 
+        assert self.start(*args, **kwargs)
         try:
-            assert self.start(*args, **kwargs)
             yield
         finally:
             stop_result = self.stop()
-- 
2.43.0


From 508d37ecaed33a3daefe0679f86000b3390d0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 28/71] fix: don't unpause a daemon that wasn't paused by the
 caller

---
 vtelem/daemon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index f16c6af..dcc109d 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -315,8 +315,8 @@ class DaemonBase(TimeEntity):
     def paused(self) -> Iterator[None]:
         """Exposes pausing and unpausing while yielded."""
 
+        assert self.pause()
         try:
-            assert self.pause()
             yield
         finally:
             assert self.unpause()
-- 
2.43.0


From 381ac42f6daf47d4db69972d21cc6ceb248690b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:24 +0000
Subject: [PATCH 29/71] fix: stop the thread of a daemon that was running, not
 a new one

---
 vtelem/daemon/__init__.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index dcc109d..2576d15 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -341,19 +341,21 @@ class DaemonBase(TimeEntity):
                     return True
         return False
 
-    def begin_stop(self) -> bool:
+    def begin_stop(self) -> Optional[threading.Thread]:
         """
         Determine if we're in the correct state to stop, mutate state if so.
+        Return the thread that was told to stop.
         """
 
         # make sure we're in the correct state to attempt a stop
-        should_stop = False
+        should_stop = None
         with self.lock:
             if self.state == DaemonState.RUNNING:
+                assert self.thread is not None
                 if self.set_state(DaemonState.STOPPING):
-                    should_stop = True
+                    should_stop = self.thread
 
-        if should_stop:
+        if should_stop is not None:
             try:
                 self.function["inject_stop"]()
             except KeyError:
@@ -371,16 +373,16 @@ class DaemonBase(TimeEntity):
     def stop(self, timeout: int = DEFAULT_TIMEOUT) -> bool:
         """Attempt to stop the daemon."""
 
-        if not self.begin_stop():
+        thread = self.begin_stop()
+        if thread is None:
             return False
 
         # if we should stop, wait for the thread to be joined
-        assert self.thread is not None
-        self.thread.join(timeout=timeout)
+        thread.join(timeout=timeout)
         with self.lock:
-            self.thread = None
-            self.increment_metric(
-                "stops" if self.state == DaemonState.IDLE else "errors"
-            )
+            # don't touch a new thread, if we were started again already
+            if self.thread is thread:
+                self.thread = None
+            self.increment_metric("errors" if thread.is_alive() else "stops")
 
         return True
-- 
2.43.0


From 269cea1a70b4a452611b2aaf274079b08b76a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:38 +0000
Subject: [PATCH 30/71] fix: boot a daemon only once it is running

---
 vtelem/daemon/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 2576d15..e28efbe 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -69,6 +69,7 @@ class DaemonBase(TimeEntity):
         self.function["track_metric_changes"] = False
         self.function["metrics_data"] = defaultdict(lambda: 0)
         self.thread: Optional[threading.Thread] = None
+        self.started = threading.Event()
 
         # assign a 'sleep' function for general use
         self.function["sleep"] = time.sleep
@@ -249,11 +250,14 @@ class DaemonBase(TimeEntity):
         """
 
         try:
-            if self.set_state(DaemonState.RUNNING):
+            running = self.set_state(DaemonState.RUNNING)
+            self.started.set()
+            if running:
                 self.run(*args, **kwargs)
         except KeyboardInterrupt:
             LOG.warning("%s: interrupted", self.name)
         finally:
+            self.started.set()
             self.increment_metric("count")
             assert self.set_state(DaemonState.IDLE)
 
@@ -270,6 +274,7 @@ class DaemonBase(TimeEntity):
         """
 
         assert self.start(*args, **kwargs)
+        self.started.wait()
         try:
             yield
         finally:
@@ -306,6 +311,7 @@ class DaemonBase(TimeEntity):
             )
             self.reset_metric("count")
             self.increment_metric("starts")
+            self.started.clear()
             assert self.set_state(DaemonState.STARTING)
 
         self.thread.start()
-- 
2.43.0


From 76ad7f0a12da1987e5a5fa2cbc8ef0da0a73d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:24 +0000
Subject: [PATCH 31/71] fix: let a daemon use an environment without metrics

---
 vtelem/telemetry/environment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index a5882a0..d45d835 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -139,8 +139,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Set the value for an enumeration metric."""
 
-        assert self.metrics is not None
-        if name in self.metrics:
+        if self.metrics is not None and name in self.metrics:
             chan = self.registries["channel"].get_item(self.metrics[name])
             assert chan is not None
             enum_type = self.enum_channel_types[self.metrics[name]]
-- 
2.43.0


From e54e071ee68c0921d4a4dcea357a93925194536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 32/71] fix: drop streams that are closed or write incompletely

---
 vtelem/stream/writer.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e7bedaf..1aa6bea 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -79,23 +79,19 @@ class StreamWriter(QueueDaemon):
                 to_remove = []
                 for stream_id, stream in streams.items():
                     try:
-                        assert stream.write(array) == size
+                        if stream.write(array) != size:
+                            raise OSError("incomplete write")
                         if self.stream_attrs[stream_id]["flush"]:
                             stream.flush()
                         self.increment_metric("stream_writes")
                         self.increment_metric("bytes_written", size)
-                    except OSError as exc:
-                        msg = (
-                            "stream '%s' (%d) error writing %d "
-                            + "bytes: %s (%d)"
-                        )
+                    except (OSError, ValueError) as exc:
                         LOG.error(
-                            msg,
-                            stream.name,
+                            "stream '%s' (%d) error writing %d bytes: %s",
+                            getattr(stream, "name", ""),
                             stream_id,
                             len(array),
-                            exc.strerror,
-                            exc.errno,
+                            exc,
                         )
                         to_remove.append((stream_id, stream))
 
@@ -103,7 +99,7 @@ class StreamWriter(QueueDaemon):
                 for stream_id, stream in to_remove:
                     LOG.warning(
                         "removing stream '%s' (%d) errors writing",
-                        stream.name,
+                        getattr(stream, "name", ""),
                         stream_id,
                     )
 
-- 
2.43.0


From dba355a59add763f29cbf41f4b1451e1cd76b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 33/71] fix: keep writing when a failing stream was removed
 already

---
 vtelem/stream/writer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 1aa6bea..42fe92d 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -103,11 +103,14 @@ class StreamWriter(QueueDaemon):
                         stream_id,
                     )
 
-                    # signal parent that their stream may be broken
-                    if self.error_handle is not None:
+                    # signal parent that their stream may be broken, unless
+                    # somebody removed it already
+                    with self.lock:
+                        present = stream_id in self.streams
+                    if present and self.error_handle is not None:
                         self.error_handle(stream_id)
 
-                    assert self.remove_stream(stream_id)
+                    self.remove_stream(stream_id)
 
             # add to queues
             for queue in queues:
-- 
2.43.0


From 77f44ba5aa4ce22b501bcc9c1a735db56d4c07de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 34/71] fix: keep writing when a full queue is removed

---
 vtelem/stream/writer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 42fe92d..c475939 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -8,7 +8,7 @@ from contextlib import contextmanager
 from io import BytesIO
 import logging
 from pathlib import Path
-from queue import Queue
+from queue import Full, Queue
 from threading import Semaphore
 from typing import (
     Any,
@@ -73,7 +73,7 @@ class StreamWriter(QueueDaemon):
                 array, size = frame.with_size_header(frame_size)
 
                 with self.lock:
-                    queues = list(self.queues.values())
+                    queues = list(self.queues.items())
                     streams = self.streams.copy()
 
                 to_remove = []
@@ -113,9 +113,15 @@ class StreamWriter(QueueDaemon):
                     self.remove_stream(stream_id)
 
             # add to queues
-            for queue in queues:
-                queue.put(frame)
-            self.increment_metric("queue_writes", len(queues))
+            for queue_id, queue in queues:
+                # don't wait for a queue that's removed while it's full
+                while queue_id in self.queues:
+                    try:
+                        queue.put(frame, timeout=0.1)
+                        self.increment_metric("queue_writes")
+                        break
+                    except Full:
+                        continue
 
         super().__init__(name, frame_queue, frame_handle, env, time_keeper)
 
-- 
2.43.0


From 34678e79df34b0ac959b9c6902cbc66e78bf4dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 35/71] fix: only close streams that belong to udp clients

---
 vtelem/classes/udp_client_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 7277311..21c2ff8 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -40,8 +40,10 @@ class UdpClientManager(LockEntity):
             """
 
             with self.lock:
-                sock, sock_file = self.clients[stream_id]
-                del self.clients[stream_id]
+                client = self.clients.pop(stream_id, None)
+            if client is None:
+                return
+            sock, sock_file = client
             name = sock.getsockname()
             LOG.info("closing stream client '%s:%d'", name[0], name[1])
             try:
-- 
2.43.0


From 2d708970ba90132a6b0a34b8246f8ceedbb0dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 36/71] fix: close the socket of a udp client that can't be
 flushed

---
 vtelem/classes/udp_client_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 21c2ff8..bab544d 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -48,7 +48,7 @@ class UdpClientManager(LockEntity):
             LOG.info("closing stream client '%s:%d'", name[0], name[1])
             try:
                 sock_file.close()
-            except ConnectionRefusedError:  # pragma: no cover
+            except OSError:  # pragma: no cover
                 pass
             finally:
                 sock.close()
-- 
2.43.0


From f4e12a1c751416dbd1b486294487ae16906050e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:08 +0000
Subject: [PATCH 37/71] fix: reject commands that aren't named by a string

---
 vtelem/daemon/command_queue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f6a3ba6..f4b3001 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -49,7 +49,9 @@ class CommandQueueDaemon(QueueDaemon):
 
             # make sure the element is a dictionary, has "command", has a
             # handler registered
-            if not isinstance(elem, dict) or "command" not in elem:
+            if not isinstance(elem, dict) or not isinstance(
+                elem.get("command"), str
+            ):
                 err = f"{self.name}: unknown or malformed command, rejected"
                 LOG.error(err)
                 self.increment_metric("rejected_count")
-- 
2.43.0


From 8411b7fae5cf964b13520554377af6a4970036ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:08 +0000
Subject: [PATCH 38/71] fix: don't make unknown commands known when they are
 rejected

---
 vtelem/daemon/command_queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f4b3001..be17dd6 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -58,7 +58,8 @@ class CommandQueueDaemon(QueueDaemon):
                 if cmd_cb is not None:
                     cmd_cb(False, err)
                 return None
-            if not self.handlers[elem["command"]]:
+            handlers = self.handlers.get(elem["command"])
+            if not handlers:
                 err = (
                     f"{self.name}: command '{elem['command']}' "
                     "has no handlers, rejected"
@@ -75,7 +76,6 @@ class CommandQueueDaemon(QueueDaemon):
                 cmd_data.update(elem["data"])
 
             # execute command
-            handlers = self.handlers[elem["command"]]
             for handler, result_cb, _ in handlers:
                 result, message = handler(cmd_data)
                 if result_cb is not None:
-- 
2.43.0


From 73ed74eb7bc1c2991367b30cca6833e2d56a6976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:08 +0000
Subject: [PATCH 39/71] fix: report a failure when a command handler raises

---
 vtelem/daemon/command_queue.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index be17dd6..1146f1a 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -24,6 +24,17 @@ from vtelem.types.command_queue_daemon import (
 LOG = logging.getLogger(__name__)
 
 
+def run_handler(handler: ConsumerType, data: dict) -> Tuple[bool, str]:
+    """Run a command handler, a handler that raises has failed."""
+
+    try:
+        result, message = handler(data)
+    except Exception as exc:  # pylint: disable=broad-except
+        LOG.exception("command handler raised an exception")
+        result, message = False, f"{type(exc).__name__}: {exc}"
+    return result, message
+
+
 class CommandQueueDaemon(QueueDaemon):
     """
     A class for consuming any arbitrary form of commands that other other
@@ -77,7 +88,7 @@ class CommandQueueDaemon(QueueDaemon):
 
             # execute command
             for handler, result_cb, _ in handlers:
-                result, message = handler(cmd_data)
+                result, message = run_handler(handler, cmd_data)
                 if result_cb is not None:
                     result_cb(result, message)
                 if cmd_cb is not None:
-- 
2.43.0


From 056dcbcfda59c4cb47fc6ddaeb9d6a2703a34418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:08 +0000
Subject: [PATCH 40/71] fix: don't require that commands can be serialized to
 log them

---
 vtelem/daemon/command_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index 1146f1a..04e9b27 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -102,7 +102,7 @@ class CommandQueueDaemon(QueueDaemon):
                     "%s: command '%s' '%s' %s, '%s'",
                     self.name,
                     elem["command"],
-                    json.dumps(cmd_data),
+                    dict(cmd_data),
                     status,
                     message,
                 )
-- 
2.43.0


From 8126fea1b3558e50f0289d5e10259992ef90bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:08 +0000
Subject: [PATCH 41/71] fix: keep servicing commands when a result callback
 raises

---
 vtelem/daemon/command_queue.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index 04e9b27..c535cca 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -35,6 +35,18 @@ def run_handler(handler: ConsumerType, data: dict) -> Tuple[bool, str]:
     return result, message
 
 
+def run_callback(
+    callback: Optional[ResultCbType], result: bool, message: str
+) -> None:
+    """Tell a callback about a result (if there is one to tell)."""
+
+    if callback is not None:
+        try:
+            callback(result, message)
+        except Exception:  # pylint: disable=broad-except
+            LOG.exception("command result callback raised an exception")
+
+
 class CommandQueueDaemon(QueueDaemon):
     """
     A class for consuming any arbitrary form of commands that other other
@@ -66,8 +78,7 @@ class CommandQueueDaemon(QueueDaemon):
                 err = f"{self.name}: unknown or malformed command, rejected"
                 LOG.error(err)
                 self.increment_metric("rejected_count")
-                if cmd_cb is not None:
-                    cmd_cb(False, err)
+                run_callback(cmd_cb, False, err)
                 return None
             handlers = self.handlers.get(elem["command"])
             if not handlers:
@@ -77,8 +88,7 @@ class CommandQueueDaemon(QueueDaemon):
                 )
                 LOG.error(err)
                 self.increment_metric("rejected_count")
-                if cmd_cb is not None:
-                    cmd_cb(False, err)
+                run_callback(cmd_cb, False, err)
                 return None
 
             # provide data as a defaultdict no matter what
@@ -89,10 +99,8 @@ class CommandQueueDaemon(QueueDaemon):
             # execute command
             for handler, result_cb, _ in handlers:
                 result, message = run_handler(handler, cmd_data)
-                if result_cb is not None:
-                    result_cb(result, message)
-                if cmd_cb is not None:
-                    cmd_cb(result, message)
+                run_callback(result_cb, result, message)
+                run_callback(cmd_cb, result, message)
                 status = "success" if result else "failure"
                 self.increment_metric(f"{status}_count")
 
-- 
2.43.0


From 9e351bd5f560a1beca215f2afc180edf270b2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:08 +0000
Subject: [PATCH 42/71] fix: give each handler of a command the data of the
 command

---
 vtelem/daemon/command_queue.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index c535cca..c117bd6 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -91,13 +91,13 @@ class CommandQueueDaemon(QueueDaemon):
                 run_callback(cmd_cb, False, err)
                 return None
 
-            # provide data as a defaultdict no matter what
-            cmd_data: dict = defaultdict(lambda: None)
-            if "data" in elem and isinstance(elem["data"], dict):
-                cmd_data.update(elem["data"])
-
             # execute command
-            for handler, result_cb, _ in handlers:
+            for handler, result_cb, _ in list(handlers):
+                # provide data as a defaultdict no matter what
+                cmd_data: dict = defaultdict(lambda: None)
+                if "data" in elem and isinstance(elem["data"], dict):
+                    cmd_data.update(elem["data"])
+
                 result, message = run_handler(handler, cmd_data)
                 run_callback(result_cb, result, message)
                 run_callback(cmd_cb, result, message)
-- 
2.43.0


From 5a3c25a4e587b485cfe69b8d432aa651e442dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:02 +0000
Subject: [PATCH 43/71] fix: don't revert channels that a group's context
 didn't change

---
 vtelem/channel/group.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 8b0faa7..4408190 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -98,11 +98,20 @@ class ChannelGroup:
         synced with the environment.
         """
 
+        data = self.read()
+        original = data.copy()
         try:
-            data = self.read()
             yield data
         finally:
-            self.write(data)
+            # only write what was changed, anything else may have been set to
+            # something new in the meantime
+            self.write(
+                {
+                    name: value
+                    for name, value in data.items()
+                    if name not in original or value != original[name]
+                }
+            )
 
     def read(self) -> Dict[str, Any]:
         """Read all channel values from the environment, atomically."""
-- 
2.43.0


From e1152b554b37812b48e636e836418e77f65d1acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:18 +0000
Subject: [PATCH 44/71] fix: don't write some of a group's channels if others
 can't be written

---
 vtelem/channel/group.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 4408190..6478fc6 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -129,10 +129,17 @@ class ChannelGroup:
         """Write the values into the environment."""
 
         with self.env.lock:
+            # make sure that everything can be written before writing anything
+            to_write = []
             for name, value in values.items():
                 assert name in self.channels
-                chan = self.channels[name]
-                if chan["is_enum"]:
-                    self.env.set_enum_now(chan["id"], value)
-                else:
-                    self.env.set_now(chan["id"], value)
+                chan_id = self.channels[name]["id"]
+                if self.channels[name]["is_enum"]:
+                    enum_id = self.env.enum_channel_types[chan_id]
+                    enum = self.env.enum_registry.get_item(enum_id)
+                    assert enum is not None
+                    value = enum.get_value(value)
+                to_write.append((chan_id, value))
+
+            for chan_id, value in to_write:
+                self.env.set_now(chan_id, value)
-- 
2.43.0


From 64a094893e06eb2545af1bf0ae11d0e4a1327a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:18 +0000
Subject: [PATCH 45/71] fix: don't add channels to a group while it's used

---
 vtelem/channel/group.py | 60 ++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 6478fc6..e10fccc 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -37,20 +37,25 @@ class ChannelGroup:
         """
 
         # the environment should catch duplicate channel names for us
-        try:
-            val = default_val(instance)
-            real_name = f"{self.name}.{name}"
-            chan_id = self.env.add_channel(
-                real_name,
-                instance,
-                rate,
-                track_change,
-                (val, self.env.get_time()),
-            )
-        except AssertionError:
-            return False
-
-        self.channels[name] = {"id": chan_id, "value": val, "is_enum": False}
+        with self.env.lock:
+            try:
+                val = default_val(instance)
+                real_name = f"{self.name}.{name}"
+                chan_id = self.env.add_channel(
+                    real_name,
+                    instance,
+                    rate,
+                    track_change,
+                    (val, self.env.get_time()),
+                )
+            except AssertionError:
+                return False
+
+            self.channels[name] = {
+                "id": chan_id,
+                "value": val,
+                "is_enum": False,
+            }
         return True
 
     def add_enum_channel(
@@ -76,19 +81,20 @@ class ChannelGroup:
         val = enum.default
 
         # the environment should catch duplicate channel names for us
-        try:
-            real_name = f"{self.name}.{name}"
-            chan_id = self.env.add_enum_channel(
-                real_name,
-                enum_name,
-                rate,
-                track_change,
-                (val, self.env.get_time()),
-            )
-        except AssertionError:
-            return False
-
-        self.channels[name] = {"id": chan_id, "is_enum": True}
+        with self.env.lock:
+            try:
+                real_name = f"{self.name}.{name}"
+                chan_id = self.env.add_enum_channel(
+                    real_name,
+                    enum_name,
+                    rate,
+                    track_change,
+                    (val, self.env.get_time()),
+                )
+            except AssertionError:
+                return False
+
+            self.channels[name] = {"id": chan_id, "is_enum": True}
         return True
 
     @contextmanager
-- 
2.43.0


From bfd05ba12b2c40381da81ee2c4247711c133ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:03 +0000
Subject: [PATCH 46/71] fix: decode as many frames of a file as requested if
 some are invalid

---
 vtelem/client/file.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 681735c..57fd34c 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -60,17 +60,13 @@ class FileClient(DaemonBase, TelemetryClient):
         (and export via queue) more frames than were requested.
         """
 
-        # Determine how many frames to process, we can either process them all
-        # or we want to truncate so we don't process more than was requested.
-        process_count = len(self.to_process)
-        if task.max_frames is not None:
-            process_count = min(
-                process_count, task.max_frames - self.frame_count
-            )
-
-        # Consume the desired number of payloads from our process list.
-        if process_count:
-            to_process = [self.to_process.pop(0) for _ in range(process_count)]
+        # Consume payloads from our process list, either all of them or until
+        # we decoded as many frames as were requested (payloads that can't be
+        # decoded don't count).
+        while self.to_process and (
+            task.max_frames is None or self.frame_count < task.max_frames
+        ):
+            to_process = [self.to_process.pop(0)]
             self.frame_count += self.handle_frames(to_process)
 
         # Determine if we've reached the limit of desired frames, if one was
-- 
2.43.0


From abcc4977d1e69e508771cfb794e9e91011a61c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:03 +0000
Subject: [PATCH 47/71] fix: don't lose frames staged by a run that was limited

---
 vtelem/client/file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 57fd34c..203726e 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -95,6 +95,11 @@ class FileClient(DaemonBase, TelemetryClient):
 
             while self.state != DaemonState.STOPPING:
                 try:
+                    # Process frames staged by a previous run, that was
+                    # limited, before reading more.
+                    if not self.process_raw_frames(self.task):
+                        break
+
                     data = stream.read(self.mtu + frame_size.type.value.size)
                     if not data:
                         LOG.info("%s: reached end-of-file", self.name)
-- 
2.43.0


From 2483d7588ad3aa06debc5397a2cf928e39674c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:18 +0000
Subject: [PATCH 48/71] fix: iterate a time keeper at its rate, not at twice
 its rate

---
 vtelem/classes/time_keeper.py | 3 +++
 vtelem/daemon/synchronous.py  | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index 700cb1e..342bb96 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -39,6 +39,9 @@ class TimeKeeper(Daemon):
         super().__init__(name, self.iteration, rate)
         self.time = self.last_time_eval
         self.function["sleep"] = self.sleep_function
+
+        # our own time only advances during an iteration
+        self.function["iteration_time"] = self.time_function
         self.slaves: List[Any] = []
 
     def iteration(self, *_, **__) -> None:
diff --git a/vtelem/daemon/synchronous.py b/vtelem/daemon/synchronous.py
index 144d668..cead7a1 100644
--- a/vtelem/daemon/synchronous.py
+++ b/vtelem/daemon/synchronous.py
@@ -38,6 +38,7 @@ class Daemon(DaemonBase):
         self.function["task"] = task
         self.function["init"] = init
         self.function["rate"] = rate
+        self.function["iteration_time"] = self.get_time
         if state_change_cb is not None:
             self.function["state_change"] = state_change_cb
 
@@ -91,9 +92,9 @@ class Daemon(DaemonBase):
                 continue
 
             # run the iteration
-            iter_start = self.get_time()
+            iter_start = self.function["iteration_time"]()
             self.function["task"](*args, **kwargs)
-            iter_end = self.get_time()
+            iter_end = self.function["iteration_time"]()
 
             # keep runtime metrics
             self.increment_metric("uptime", iter_end - iter_start)
@@ -102,7 +103,8 @@ class Daemon(DaemonBase):
             )
 
             # await the next iteration
-            sleep_amount = rate - (self.get_time() - iter_start)
+            time_passed = self.function["iteration_time"]() - iter_start
+            sleep_amount = rate - time_passed
             if sleep_amount > 0.0:
                 self.function["sleep"](sleep_amount)
             elif self.function["overrun"] is not None:
-- 
2.43.0


From ae107f226c32b20ae0ae821b509cfee1c982c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:02 +0000
Subject: [PATCH 49/71] fix: look http handlers up by the path they're
 registered for

---
 vtelem/classes/http_request_mapper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 3a3ad24..b5fcbc6 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -60,9 +60,11 @@ class HttpRequestMapper:
     ) -> Tuple[Opt[RequestHandle], Opt[dict]]:
         """Retrieve a handle by request type and path."""
 
+        # don't add anything to what's registered by looking it up
+        path = path.lower()
         return (
-            self.requests[request_type][path],
-            self.handle_data[request_type][path],
+            self.requests.get(request_type, {}).get(path),
+            self.handle_data.get(request_type, {}).get(path),
         )
 
     def add_handler(
-- 
2.43.0


From 56b8f5f513359c956e87a69e10c75c7d6b1441cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:02 +0000
Subject: [PATCH 50/71] fix: announce the content length of an http response in
 bytes

---
 vtelem/classes/http_request_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index b5fcbc6..a74e3da 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -167,10 +167,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         if handle_data is not None:
             for key, value in handle_data.items():
                 self.send_header(key, value)
-        self.send_header("Content-Length", str(len(content)))
+        body = content.encode()
+        self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-            self.wfile.write(content.encode())
+            self.wfile.write(body)
         self.log_request(status)
         return None
 
-- 
2.43.0


From 37bc4c9752204a95c90861befb07953e814a9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:02 +0000
Subject: [PATCH 51/71] fix: send well-formed http error responses

---
 vtelem/classes/http_request_mapper.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index a74e3da..42268e5 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -114,7 +114,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_error(
             HTTPStatus.NOT_IMPLEMENTED, "no request-mapper configured"
         )
-        self.end_headers()
         self.close_connection = True
 
     def _no_handle_response(self, command: str) -> None:
@@ -123,8 +122,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         """
 
         msg = f"no request-mapper for '{command}' path '{self.path}'"
-        self.send_error(HTTPStatus.NOT_FOUND, msg)
-        self.end_headers()
+        self.send_error(HTTPStatus.NOT_FOUND, explain=msg)
         self.close_connection = True
 
     def _handle(self, _data: dict = None) -> None:
@@ -158,8 +156,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
-            self.send_error(status, content)
-            self.end_headers()
+            self.send_error(status, explain=content)
             self.close_connection = True
             return None
 
-- 
2.43.0


From e82cc0699b7ea046695e90999c30ddfe85a5dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:02 +0000
Subject: [PATCH 52/71] fix: respond with an error when an http handler raises

---
 vtelem/classes/http_request_mapper.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 42268e5..2fadee5 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -152,7 +152,17 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
             return self._no_handle_response(command)
 
         # run handler
-        success, content = handle(self, data)
+        try:
+            success, content = handle(self, data)
+            body = content.encode() if success else b""
+        except Exception as exc:  # pylint: disable=broad-except
+            LOG.exception("handler of '%s' raised", self.path)
+            self.send_error(
+                HTTPStatus.INTERNAL_SERVER_ERROR, explain=repr(exc)
+            )
+            self.close_connection = True
+            return None
+
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
@@ -164,7 +174,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         if handle_data is not None:
             for key, value in handle_data.items():
                 self.send_header(key, value)
-        body = content.encode()
         self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-- 
2.43.0


From 01e50fec81a4d637f4979f22b6cd29882dcb7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:02 +0000
Subject: [PATCH 53/71] fix: respond with an error to http requests that can't
 be parsed

---
 vtelem/classes/http_request_mapper.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 2fadee5..e2ea1c2 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -125,6 +125,12 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_error(HTTPStatus.NOT_FOUND, explain=msg)
         self.close_connection = True
 
+    def _bad_request_response(self, exc: Exception) -> None:
+        """Handle a request that can't be parsed."""
+
+        self.send_error(HTTPStatus.BAD_REQUEST, explain=str(exc))
+        self.close_connection = True
+
     def _handle(self, _data: dict = None) -> None:
         """Handle an arbitrary request."""
 
@@ -134,7 +140,10 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         data.update(_data)
 
         # parse the request uri
-        parsed = urllib.parse.urlparse(self.path)  # type: ignore
+        try:
+            parsed = urllib.parse.urlparse(self.path)  # type: ignore
+        except ValueError as exc:
+            return self._bad_request_response(exc)
         self.path = parsed.path
         if parsed.query:
             data.update(urllib.parse.parse_qs(parsed.query))  # type: ignore
@@ -191,7 +200,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
     def do_POST(self) -> None:  # pylint: disable=invalid-name
         """Respond to a POST request."""
-        return self._handle(get_post_request_data(self))
+        try:
+            data = get_post_request_data(self)
+        except ValueError as exc:
+            return self._bad_request_response(exc)
+        return self._handle(data)
 
 
 def parse_content_type(value: str) -> Opt[dict]:
@@ -357,6 +370,8 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
     if all(key in request.headers for key in keys):
         content_type = parse_content_type(request.headers["Content-Type"])
         length = int(request.headers["Content-Length"])
+        if length < 0:
+            raise ValueError(f"invalid content length {length}")
         if content_type is not None and content_type["type"] in parsers:
             subparsers = parsers[content_type["type"]]
             if content_type["subtype"] in subparsers:
-- 
2.43.0


From a54280b4ba79c2a615d03f2023d225567af093ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:02 +0000
Subject: [PATCH 54/71] fix: find a quoted boundary and one among other
 parameters

---
 vtelem/classes/http_request_mapper.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index e2ea1c2..ee1898c 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -230,14 +230,10 @@ def get_multipart_boundary(content_type: dict) -> Opt[str]:
     processing of 'multipart' MIME data.
     """
 
-    if (
-        "params" in content_type
-        and isinstance(content_type["params"], list)
-        and len(content_type["params"]) == 1
-    ):
-        boundary_raw = content_type["params"][0].split("=")
-        if len(boundary_raw) == 2 and boundary_raw[0] == "boundary":
-            return boundary_raw[1]
+    for param in content_type.get("params", []):
+        name, _, boundary = param.partition("=")
+        if name.strip().lower() == "boundary" and boundary.strip():
+            return dequote(boundary.strip())
 
     return None
 
-- 
2.43.0


From 76524fd8c92cf6a7acd14f4e3ca57733929d1fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:02 +0000
Subject: [PATCH 55/71] fix: parse fields of form data with any name

---
 vtelem/classes/http_request_mapper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index ee1898c..bfc420a 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -9,6 +9,7 @@ from http import HTTPStatus
 from http.server import BaseHTTPRequestHandler
 import json
 import logging
+import re
 from typing import Callable, Dict, List
 from typing import Optional as Opt
 from typing import Tuple
@@ -255,7 +256,7 @@ def parse_request_lines(lines: List[str]) -> dict:
 
     # parse headers (RFC 822 3.2)
     for header in headers:
-        name_body = header.split(":")
+        name_body = header.split(":", 1)
         if len(name_body) == 2:
             name = name_body[0].strip().lower()
             body = name_body[1].strip()
@@ -314,11 +315,13 @@ def parse_content_disposition(data: str) -> dict:
     """
 
     result = {}
-    items = [x.strip() for x in data.split(";")]
+    # don't split at what's inside of quotes
+    separator = r';(?=(?:[^"]*"[^"]*")*[^"]*$)'
+    items = [x.strip() for x in re.split(separator, data)]
     if items:
         result["type"] = items[0]
         for param in items[1:]:
-            param_split = param.split("=")
+            param_split = param.split("=", 1)
             if len(param_split) == 2:
                 key = param_split[0].strip().lower()
                 result[key] = dequote(param_split[1].strip())
-- 
2.43.0


From aea9f549704376b516b36f200566064567d17899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:15 +0000
Subject: [PATCH 56/71] fix: set and add to a primitive atomically

---
 vtelem/classes/type_primitive.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/vtelem/classes/type_primitive.py b/vtelem/classes/type_primitive.py
index adbab8e..64f5fd4 100644
--- a/vtelem/classes/type_primitive.py
+++ b/vtelem/classes/type_primitive.py
@@ -5,6 +5,7 @@ vtelem - A generic element that can be read from and written to buffers.
 # built-in
 import logging
 import struct
+import threading
 from typing import Callable, Tuple
 
 # internal
@@ -39,6 +40,7 @@ class TypePrimitive:
         self.data: PrimitiveValue = default_val(self.type)
         self.changed_cb = changed_cb
         self.last_set: float = float()
+        self.set_lock = threading.RLock()
 
     def __eq__(self, other) -> bool:
         """Generic equality check for primitives."""
@@ -55,7 +57,8 @@ class TypePrimitive:
     def add(self, data: PrimitiveValue, time: float = None) -> bool:
         """Safely add some amount to the primitive."""
 
-        return self.set(self.get() + data, time)
+        with self.set_lock:
+            return self.set(self.get() + data, time)
 
     def set(self, data: PrimitiveValue, time: float = None) -> bool:
         """Set this primitive's data manually."""
@@ -73,20 +76,22 @@ class TypePrimitive:
                 )
                 return False
 
-            # setup changed-callback if necessary
-            if self.changed_cb is not None:
-                cb_args = [(self.data, self.last_set), (data, time)]
-                prev_data = self.data
+            with self.set_lock:
 
-            # set the new value
-            self.data = expected_type(data)
-            if time is not None:
-                self.last_set = time
+                # setup changed-callback if necessary
+                if self.changed_cb is not None:
+                    cb_args = [(self.data, self.last_set), (data, time)]
+                    prev_data = self.data
 
-            # call changed-callback
-            if self.changed_cb is not None and prev_data != data:
-                self.changed_cb(*cb_args)
-            return True
+                # set the new value
+                self.data = expected_type(data)
+                if time is not None:
+                    self.last_set = time
+
+                # call changed-callback
+                if self.changed_cb is not None and prev_data != data:
+                    self.changed_cb(*cb_args)
+                return True
 
         LOG.warning(
             "can't assign '%s', expected type '%s' got '%s'",
-- 
2.43.0


From 7e3d23e7c5416cfdce232da2c35af1f3b239df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:15 +0000
Subject: [PATCH 57/71] fix: register a metric once if it's added concurrently

---
 vtelem/channel/environment.py   | 11 ++++++-----
 vtelem/telemetry/environment.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index ab33f8f..fd4fa69 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -111,11 +111,12 @@ class ChannelEnvironment(TimeEntity):
     ) -> None:
         """Add a new, named metric channel"""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_channel(
-                name, instance, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_channel(
+                    name, instance, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def get_metric(self, name: str) -> Any:
         """Get the value from a metrics channel."""
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index d45d835..63fe8d4 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -128,11 +128,12 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Add a metric based on an enumeration definition."""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_enum_channel(
-                name, enum_name, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_enum_channel(
+                    name, enum_name, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def set_enum_metric(
         self, name: str, data: str, time: float = None
-- 
2.43.0


From dc3ec45a050155015aa6e72f144ba88c8f84c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:35 +0000
Subject: [PATCH 58/71] fix: add an enum channel atomically

---
 vtelem/telemetry/environment.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 63fe8d4..4a1d034 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -87,7 +87,8 @@ class TelemetryEnvironment(ChannelEnvironment):
     def is_enum_channel(self, chan_id: int) -> bool:
         """Determine if a channel holds an enumeration value."""
 
-        return self.enum_channel_types[chan_id] != -1
+        with self.lock:
+            return self.enum_channel_types[chan_id] != -1
 
     def add_enum_channel(
         self,
@@ -110,13 +111,14 @@ class TelemetryEnvironment(ChannelEnvironment):
             initial = (enum_def.default, None)
         value = enum_def.get_value(initial[0])
 
-        new_chan = self.add_channel(
-            name, DEFAULTS["enum"], rate, track_change, None, commandable
-        )
-        self.enum_channel_types[new_chan] = enum_type
-        chan = self.registries["channel"].get_item(new_chan)
-        assert chan is not None
-        assert chan.set(value, initial[1])
+        with self.lock:
+            new_chan = self.add_channel(
+                name, DEFAULTS["enum"], rate, track_change, None, commandable
+            )
+            self.enum_channel_types[new_chan] = enum_type
+            chan = self.registries["channel"].get_item(new_chan)
+            assert chan is not None
+            assert chan.set(value, initial[1])
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From 6ae931e7938979226620ab7470b8f4ccefcd6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:43 +0000
Subject: [PATCH 59/71] fix: don't dispatch events of channels that are being
 added

---
 vtelem/channel/framer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/channel/framer.py b/vtelem/channel/framer.py
index 7af2081..2146d82 100644
--- a/vtelem/channel/framer.py
+++ b/vtelem/channel/framer.py
@@ -74,7 +74,10 @@ class ChannelFramer(Framer):
         """
 
         frame_count = 0
-        events = event_queue.consume()
+
+        # a channel that is being added may have queued an event already
+        with self.lock:
+            events = event_queue.consume()
         event_count = len(events)
 
         curr_frame = self.new_event_frame(time)
-- 
2.43.0


From d4f6c2f0b8159027fea99fd63d3d6aaf499a29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:38 +0000
Subject: [PATCH 60/71] fix: build a telemetry server without its
 websocket-command interface

---
 vtelem/telemetry/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 445a8ef..b2150ad 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -143,7 +143,7 @@ class TelemetryServer(HttpDaemon):
                 telem,
                 self.time_keeper,
             )
-        assert self.daemons.add_daemon(ws_cmd, ["stream"])
+            assert self.daemons.add_daemon(ws_cmd, ["stream"])
 
         # make the daemon-manager commandable
         create_daemon_manager_commander(self.daemons, queue_daemon)
-- 
2.43.0


From 123d1f37077d49466e356a34554373bdc32949a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:22 +0000
Subject: [PATCH 61/71] fix: describe a registry that holds channel groups

---
 vtelem/channel/group_registry.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/vtelem/channel/group_registry.py b/vtelem/channel/group_registry.py
index f0208a8..7fee7bb 100644
--- a/vtelem/channel/group_registry.py
+++ b/vtelem/channel/group_registry.py
@@ -4,6 +4,7 @@ vtelem - Allows channel groups to be managed by a single entity.
 
 # built-in
 from contextlib import contextmanager
+from json import JSONEncoder
 from typing import Any, Dict, Iterator
 
 # internal
@@ -13,6 +14,17 @@ from vtelem.registry import Registry
 from vtelem.telemetry.environment import TelemetryEnvironment
 
 
+class ChannelGroupEncoder(JSONEncoder):
+    """A JSON encoder for a channel group."""
+
+    def default(self, o) -> dict:
+        """Implement serialization for the channels of a group."""
+
+        assert isinstance(o, ChannelGroup)
+        with o.env.lock:
+            return {name: data["id"] for name, data in o.channels.items()}
+
+
 class ChannelGroupRegistry(Registry[ChannelGroup]):
     """A class for managing an arbitrary number of channel groups."""
 
@@ -22,6 +34,11 @@ class ChannelGroupRegistry(Registry[ChannelGroup]):
         super().__init__("channel_groups")
         self.env = env
 
+    def describe(self, indented: bool = False) -> str:
+        """Obtain a JSON String of the group registry's current state."""
+
+        return self.describe_raw(indented, ChannelGroupEncoder)
+
     def create_group(self, name: str) -> int:
         """Add a new, named channel group."""
 
-- 
2.43.0


From 0a15d94632d4bfd4275bbf00a978c13c4a941be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:32 +0000
Subject: [PATCH 62/71] fix: enforce the schema manager's schema on loaded
 objects

---
 vtelem/classes/serdes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/serdes.py b/vtelem/classes/serdes.py
index 7d611e7..b04e71c 100644
--- a/vtelem/classes/serdes.py
+++ b/vtelem/classes/serdes.py
@@ -145,7 +145,7 @@ class Serializable:
         """Create a serializable from a text stream loaded as JSON."""
 
         data: ObjectData = load(stream, cls=self.params.decoder, **load_kwargs)
-        return self.__class__(data, self.params)
+        return self.__class__(data, self.params, self.log, self.manager)
 
     def load_str(self, data: str, **load_kwargs) -> "Serializable":
         """Create a serializable from a String loaded as JSON."""
-- 
2.43.0


From aacebcd16b53802c8c669b06cdb6ae478cda683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:42 +0000
Subject: [PATCH 63/71] fix: don't continue a frame of a client's previous
 connection

---
 vtelem/client/socket.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index c8cde27..5bcdab5 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -14,6 +14,7 @@ from vtelem.channel.registry import ChannelRegistry
 from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonBase, DaemonState
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -82,7 +83,11 @@ class SocketClient(DaemonBase, TelemetryClient):
 
         # If an 'init' function is provided, re-initialize the socket.
         if "init" in self.function:
-            self.socket = self.function["init"](self.socket)
+            sock = self.function["init"](self.socket)
+            if sock is not self.socket:
+                # don't continue a frame of the previous connection
+                self.processor = FrameProcessor()
+            self.socket = sock
             self.update_name(self.socket)
 
         frame_size = new_default("count")
-- 
2.43.0


From e19305cc403b5870331bc314dcb175da8528ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:42 +0000
Subject: [PATCH 64/71] fix: don't let a malformed datagram affect the ones
 that follow

---
 vtelem/client/socket.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index 5bcdab5..91082e9 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -6,7 +6,7 @@ vtelem - A daemon that provides decoded telemetry frames into a queue, from a
 # built-in
 import logging
 from queue import Queue
-from socket import SocketType, timeout
+from socket import SOCK_DGRAM, SocketType, timeout
 from typing import Callable
 
 # internal
@@ -101,6 +101,11 @@ class SocketClient(DaemonBase, TelemetryClient):
                 if not raw_data:
                     LOG.info("%s: stream ended", self.name)
                     break
+
+                # datagrams don't continue each other
+                if self.socket.type == SOCK_DGRAM:
+                    self.processor = FrameProcessor()
+
                 self.handle_frames(
                     self.processor.process(raw_data, frame_size, self.mtu)
                 )
-- 
2.43.0


From cf860165299f1050c0bc06e057b070a8347df4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:42 +0000
Subject: [PATCH 65/71] fix: close a client's connection when it's stopped,
 even if it's gone or being made

---
 vtelem/client/socket.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index 91082e9..5f549f8 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -62,7 +62,11 @@ class SocketClient(DaemonBase, TelemetryClient):
             queue that frames are over.
             """
             LOG.info("%s: closing socket reader", self.name)
-            stopper()
+            try:
+                stopper()
+            except OSError as exc:
+                # the connection may be gone already, or not made yet
+                LOG.error("%s: %s", self.name, exc)
             self.close()
 
         self.function["inject_stop"] = stop_server
@@ -114,3 +118,7 @@ class SocketClient(DaemonBase, TelemetryClient):
             except OSError as exc:
                 LOG.error("%s: %s", self.name, exc)
                 break
+
+        # the connection may have been made after we were told to stop
+        if self.state == DaemonState.STOPPING:
+            self.socket.close()
-- 
2.43.0


From d57c176de62ff59ec9b456f9564b12db01350549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:25 +0000
Subject: [PATCH 66/71] fix: wake an event loop that's told to cancel its tasks

---
 vtelem/daemon/event_loop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/event_loop.py b/vtelem/daemon/event_loop.py
index f30a568..fafbc04 100644
--- a/vtelem/daemon/event_loop.py
+++ b/vtelem/daemon/event_loop.py
@@ -38,10 +38,10 @@ class EventLoopDaemon(DaemonBase):
             with self.lock:
                 waits = self.wait_count
 
-            # signal active tasks to cancel
+            # signal active tasks to cancel, wake the event loop if it's idle
             tasks = asyncio.all_tasks(loop=self.eloop)
             for task in tasks:
-                task.cancel()
+                self.eloop.call_soon_threadsafe(task.cancel)
 
             # allow 'stop_grace' amount of time to pass while we wait for tasks
             # to complete, after this we'll stop the event loop and wait for
-- 
2.43.0


From 99a2b634f26573727f6aa864184471de4aae3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:28 +0000
Subject: [PATCH 67/71] fix: don't let a websocket-telemetry client block the
 others

---
 vtelem/daemon/websocket_telemetry.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vtelem/daemon/websocket_telemetry.py b/vtelem/daemon/websocket_telemetry.py
index d2f068e..2572d63 100644
--- a/vtelem/daemon/websocket_telemetry.py
+++ b/vtelem/daemon/websocket_telemetry.py
@@ -3,6 +3,7 @@ vtelem - An interface for managing websocket servers that serve telemetry data.
 """
 
 # built-in
+from asyncio import sleep
 from queue import Queue
 from typing import Any, Optional, Tuple
 
@@ -18,6 +19,9 @@ from vtelem.stream import queue_get
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
 
+# how often to check if there's more to send to an idle connection
+POLL_INTERVAL = 0.01
+
 
 class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
     """A class for creating telemetry-serving websocket servers."""
@@ -47,6 +51,11 @@ class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
             try:
                 while should_continue:
                     try:
+                        # don't block the event loop, all clients share it
+                        await sleep(0)
+                        while frame_queue.empty():
+                            await sleep(POLL_INTERVAL)
+
                         frame: Optional[ChannelFrame] = queue_get(frame_queue)
                         if frame is None:
                             should_continue = False
-- 
2.43.0


From 26aaef868d08ae07eb3a31e70ad938c2f0d5d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:42 +0000
Subject: [PATCH 68/71] fix: don't continue a frame of a websocket client's
 previous connection

---
 vtelem/client/websocket.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vtelem/client/websocket.py b/vtelem/client/websocket.py
index 277f30e..4d8be80 100644
--- a/vtelem/client/websocket.py
+++ b/vtelem/client/websocket.py
@@ -18,6 +18,7 @@ from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonState
 from vtelem.daemon.event_loop import EventLoopDaemon
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -57,6 +58,10 @@ class WebsocketClient(EventLoopDaemon, TelemetryClient):
 
             frame_size = new_default("count")
             assert self.env is not None
+
+            # don't continue a frame of the previous connection
+            self.processor = FrameProcessor()
+
             try:
                 while self.state != DaemonState.STOPPING:
                     self.handle_frames(
-- 
2.43.0


From 28997cb48e6d0279828e03055a12ffcf24054e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:51 +0000
Subject: [PATCH 69/71] fix: serve telemetry to websocket clients that connect
 over IPv6

---
 vtelem/daemon/websocket_telemetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/websocket_telemetry.py b/vtelem/daemon/websocket_telemetry.py
index 2572d63..4d5c5ab 100644
--- a/vtelem/daemon/websocket_telemetry.py
+++ b/vtelem/daemon/websocket_telemetry.py
@@ -44,7 +44,7 @@ class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
             """
 
             queue_id, frame_queue = self.add_client_queue(
-                Host(*websocket.remote_address)
+                Host(*websocket.remote_address[:2])
             )
             should_continue = True
 
-- 
2.43.0


From 805fcd9bb3f4e7486247229c432508ca685e3e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:26 +0000
Subject: [PATCH 70/71] fix: let go of a tcp client that's accepted while the
 service stops

---
 vtelem/daemon/tcp_telemetry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 16546ad..a3c5c30 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -12,7 +12,7 @@ from typing import Any, Dict, Tuple
 
 # internal
 from vtelem.client.tcp import TcpClient
-from vtelem.daemon import DaemonBase
+from vtelem.daemon import DaemonBase, DaemonState
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
@@ -43,6 +43,11 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
         # add the socket to the stream writer
         writer: StreamWriter = daemon.writer
         with daemon.lock:
+            # don't keep a client that was accepted while being stopped
+            if daemon.get_state() in (DaemonState.STOPPING, DaemonState.IDLE):
+                daemon.decrement_metric("clients")
+                return
+
             stream_id, sem = writer.add_semaphore_stream(stream)
             daemon.client_sems[stream_id] = sem
 
-- 
2.43.0


From a8884afe8082976b0cf51e4395a51f1255724c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:00 +0000
Subject: [PATCH 71/71] fix: answer websocket commands that can't be decoded
 instead of disconnecting

---
 vtelem/factories/websocket_daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/factories/websocket_daemon.py b/vtelem/factories/websocket_daemon.py
index eb4a289..e123924 100644
--- a/vtelem/factories/websocket_daemon.py
+++ b/vtelem/factories/websocket_daemon.py
@@ -37,7 +37,7 @@ def commandable_websocket_daemon(
             cmd_result = daemon.execute(json.loads(message))
             result["success"] = cmd_result[0]
             result["message"] = cmd_result[1]
-        except json.decoder.JSONDecodeError as exc:
+        except (ValueError, RecursionError) as exc:
             result["message"] = str(exc)
 
         await websocket.send(json.dumps(result))
-- 
2.43.0

