From d305e2b60078b9cdf97020ca349c0866af1354a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 1/6] fix: reject a log whose header is cut short instead of
 reading it zero filled

---
 atoparser/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 5b6f47c..9a483af 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -145,11 +145,14 @@ def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header
     # Read the header directly into the struct, there is no padding to consume or add.
     # Use default Header as the baseline in order to check the version. It can be transferred without re-reading.
     header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
-    raw_file.readinto(header)
+    header_length = raw_file.readinto(header)
 
     if header.magic != MAGIC:
         msg = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
         raise ValueError(msg)
+    if header_length < ctypes.sizeof(header):
+        msg = f"File does not contain a complete header: {header_length} of {ctypes.sizeof(header)} bytes"
+        raise ValueError(msg)
 
     header_version = header.semantic_version
     if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:
-- 
2.43.0


From d8f8de401c842c659561849d44b01e96a4c46a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 2/6] fix: judge logs of unlisted versions with the fallback
 layout instead of failing on a missing length field

---
 atoparser/structs/shared.py | 4 ++--
 atoparser/utils.py          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/atoparser/structs/shared.py b/atoparser/structs/shared.py
index 91dda02..4cb1b46 100644
--- a/atoparser/structs/shared.py
+++ b/atoparser/structs/shared.py
@@ -49,11 +49,11 @@ class HeaderMixin:
             ("Record", self.rawreclen, ctypes.sizeof(self.Record)),
             ("SStat", self.sstatlen, ctypes.sizeof(self.SStat)),
         ]
-        if self.major_version >= 2 and self.minor_version >= 3:
+        if hasattr(self, "tstatlen"):
             sizes.append(("TStat", self.tstatlen, ctypes.sizeof(self.TStat)))
         else:
             sizes.append(("PStat", self.pstatlen, ctypes.sizeof(self.TStat)))
-        if self.major_version >= 2 and self.minor_version >= 11:
+        if (self.major_version, self.minor_version) >= (2, 11):
             sizes.append(("CStat", self.cstatlen, ctypes.sizeof(self.CStat)))
         if any(size[1] != size[2] for size in sizes):
             raise ValueError(
diff --git a/atoparser/utils.py b/atoparser/utils.py
index 9a483af..0ac6ebb 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -117,7 +117,7 @@ def generate_statistics(
                 break
             sstat = get_sstat(raw_file, header, record)
             tstats = get_tstat(raw_file, header, record)
-            if major >= 2 and minor >= 11:
+            if (major, minor) >= (2, 11):
                 cgroups = get_cstat(raw_file, header, record)
             else:
                 cgroups = []
@@ -237,7 +237,7 @@ def get_tstat(
     decompressed = zlib.decompress(buffer)
 
     record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
-    tstatlen = header.tstatlen if header.major_version >= 2 and header.minor_version >= 3 else header.pstatlen
+    tstatlen = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
     tstats = []
     for index in range(record_count):
         # Reconstruct one TStat struct for every possible byte chunk, incrementing the offset each pass. For example:
-- 
2.43.0


From 6a0147b4159a1dfd20f7ec3a389b79804be71766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 3/6] fix: do not abort parseable output on names or command
 lines that are not valid UTF-8

---
 atoparser/parsers/atop_1_26.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/atoparser/parsers/atop_1_26.py b/atoparser/parsers/atop_1_26.py
index ef8f33b..c062050 100644
--- a/atoparser/parsers/atop_1_26.py
+++ b/atoparser/parsers/atop_1_26.py
@@ -96,7 +96,7 @@ def parse_DSK(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": disk.name.decode(),
+            "name": disk.name.decode(errors="ignore"),
             "io_ms": disk.io_ms,
             "reads": disk.nread,
             "read_sectors": disk.nrsect,
@@ -120,7 +120,7 @@ def parse_LVM(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": lvm.name.decode(),
+            "name": lvm.name.decode(errors="ignore"),
             "io_ms": lvm.io_ms,
             "reads": lvm.nread,
             "read_sectors": lvm.nrsect,
@@ -144,7 +144,7 @@ def parse_MDD(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": mdd.name.decode(),
+            "name": mdd.name.decode(errors="ignore"),
             "io_ms": mdd.io_ms,
             "reads": mdd.nread,
             "read_sectors": mdd.nrsect,
@@ -189,7 +189,7 @@ def parse_NETL(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": interface.name.decode(),
+            "name": interface.name.decode(errors="ignore"),
             "pkt_received": interface.rpack,
             "byte_received": interface.rbyte,
             "pkt_transmitted": interface.spack,
@@ -254,8 +254,8 @@ def parse_PRC(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "ticks": header.hertz,
             "user_consumption": stat.cpu.utime,
             "system_consumption": stat.cpu.stime,
@@ -281,8 +281,8 @@ def parse_PRD(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "standard_io": "y" if header.supportflags & atop_1_26.IOSTAT else "n",
             "reads": stat.dsk.rio,
@@ -306,15 +306,15 @@ def parse_PRG(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "real_uid": stat.gen.ruid,
             "real_gid": stat.gen.rgid,
             "tgid": stat.gen.pid,  # This is a duplicate of pid per atop documentation.
             "threads": stat.gen.nthr,
             "exit_code": stat.gen.excode,
             "start_time": stat.gen.btime,
-            "cmd": stat.gen.cmdline.decode(),
+            "cmd": stat.gen.cmdline.decode(errors="ignore"),
             "ppid": stat.gen.ppid,
             "running_threads": stat.gen.nthrrun,
             "sleeping_threads": stat.gen.nthrslpi,
@@ -342,8 +342,8 @@ def parse_PRM(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "page": header.pagesize,
             "vsize": stat.mem.vmem * 1024,
             "rsize": stat.mem.rmem * 1024,
@@ -368,8 +368,8 @@ def parse_PRN(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "tcp_transmitted": stat.net.tcpsnd,
             "tcp_transmitted_size": stat.net.tcpssz,
-- 
2.43.0


From 46ba49a5bc4c191fe2fec5ae59bfb45a37c5318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 4/6] fix: publish in the 2.5 and 2.9 modules the struct types
 their samples are made of

---
 atoparser/structs/atop_2_5.py | 4 ++--
 atoparser/structs/atop_2_9.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atoparser/structs/atop_2_5.py b/atoparser/structs/atop_2_5.py
index 990cd95..ad76453 100644
--- a/atoparser/structs/atop_2_5.py
+++ b/atoparser/structs/atop_2_5.py
@@ -58,10 +58,10 @@ MemStat = atop_2_3.MemStat
 FreqCnt = atop_1_26.FreqCnt
 
 
-PerCPU = atop_2_3.PerCPU
+PerCPU = atop_2_4.PerCPU
 
 
-CPUStat = atop_2_3.CPUStat
+CPUStat = atop_2_4.CPUStat
 
 
 PerDSK = atop_2_3.PerDSK
diff --git a/atoparser/structs/atop_2_9.py b/atoparser/structs/atop_2_9.py
index fe7ff4f..149af10 100644
--- a/atoparser/structs/atop_2_9.py
+++ b/atoparser/structs/atop_2_9.py
@@ -166,7 +166,7 @@ ICMPv6Stats = atop_1_26.ICMPv6Stats
 UDPv6Stats = atop_1_26.UDPv6Stats
 
 
-NETStat = atop_1_26.NETStat
+NETStat = atop_2_8.NETStat
 
 
 SStat = atop_2_8.SStat
-- 
2.43.0


From afae09d6cbea30e155f5dcd2bbb6d3ba0f7fb523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 5/6] fix: offer the implemented PRD parseable on the command
 line

---
 atoparser/reader.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/atoparser/reader.py b/atoparser/reader.py
index 80c3e0d..2fd7f41 100755
--- a/atoparser/reader.py
+++ b/atoparser/reader.py
@@ -9,7 +9,24 @@ import json
 import atoparser
 from atoparser.parsers import atop_1_26
 
-PARSEABLES = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "PRC", "PRG", "PRM", "PRN", "SWP"]
+PARSEABLES = [
+    "cpu",
+    "CPL",
+    "CPU",
+    "DSK",
+    "LVM",
+    "MDD",
+    "MEM",
+    "NETL",
+    "NETU",
+    "PAG",
+    "PRC",
+    "PRD",
+    "PRG",
+    "PRM",
+    "PRN",
+    "SWP",
+]
 PARSEABLE_MAP = {
     "1.26": {parseable: getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES},
 }
-- 
2.43.0


From 336534d8a0ee02259c72a75a28f3a02224d42777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 6/6] fix: list no unused entries when a damaged log holds a
 negative count

---
 atoparser/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 0ac6ebb..491c8de 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -319,7 +319,8 @@ def struct_to_dict(struct: ctypes.Structure) -> dict:
                 limiters = getattr(struct, "fields_limiters", {})
                 limiter = limiters.get(field_name)
                 if limiter:
-                    field_data = field_data[: getattr(struct, limiter)]
+                    # A damaged count may be negative, do not let it address entries from the end of the list.
+                    field_data = field_data[: max(getattr(struct, limiter), 0)]
                 for sub_data in field_data:
                     if isinstance(sub_data, ctypes.Structure):
                         struct_dict[field_name].append(struct_to_dict(sub_data))
-- 
2.43.0

