From ae3b0ec15a6fd94b7637547a9844d477dd23cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:57 +0000
Subject: [PATCH 01/61] fix: resolve each extended partition's EBR chain
 relative to itself

Links in an EBR chain count from the start of their own extended
partition. With two extended partitions the second one was resolved
relative to the first.
---
 dissect/volume/disk/schemes/mbr.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 7aa56ab..12dd8b6 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -66,15 +66,18 @@ class MBR:
             part_offset = offset + partition.sector_ofs * self.sector_size
 
             if partition.type in (0x05, 0x0F, 0x85):  # Extended
-                if not ebr_offset:
-                    ebr_offset = part_offset
-                else:
+                if ebr_offset is not None:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
-                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset)
+                yield from self._partitions(
+                    e_mbr,
+                    part_offset,
+                    num_start + num,
+                    ebr_offset=part_offset if ebr_offset is None else ebr_offset,
+                )
 
                 continue
 
-- 
2.43.0


From d7d268ef0ef8deb2b847585ee3faa9ff87e1fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:46 +0000
Subject: [PATCH 02/61] fix: give logical partitions their own numbers

Logical partitions were numbered from the slot of their extended
partition, so several partitions of a disk could share a number.
Number them from 5, after the primary slots, in chain order.
---
 dissect/volume/disk/schemes/mbr.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 12dd8b6..5c4496e 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from itertools import count
 from typing import TYPE_CHECKING, BinaryIO
 
 from dissect.cstruct import cstruct
@@ -54,11 +55,11 @@ class MBR:
         if self.mbr.bootcode[18:38] == b"Hit Esc for .altboot" or self.mbr.bootcode[168:174] == b"\r\nQNX ":
             raise DiskError("Sector is a QNX Boot Sector, not an MBR")
 
+        # Logical partitions are numbered after the four primary slots
+        self._logical_number = count(5)
         self.partitions: list[Partition] = list(self._partitions(self.mbr, self.offset))
 
-    def _partitions(
-        self, mbr: c_mbr.mbr_s, offset: int, num_start: int = 0, ebr_offset: int | None = None
-    ) -> Iterator[Partition]:
+    def _partitions(self, mbr: c_mbr.mbr_s, offset: int, ebr_offset: int | None = None) -> Iterator[Partition]:
         for num, partition in enumerate(mbr.part):
             if partition.type == 0x00:
                 continue
@@ -73,17 +74,15 @@ class MBR:
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
                 yield from self._partitions(
-                    e_mbr,
-                    part_offset,
-                    num_start + num,
-                    ebr_offset=part_offset if ebr_offset is None else ebr_offset,
+                    e_mbr, part_offset, ebr_offset=part_offset if ebr_offset is None else ebr_offset
                 )
 
                 continue
 
             yield Partition(
                 disk=self,
-                number=num_start + num + 1,  # partitions are 1-indexed
+                # partitions are 1-indexed
+                number=num + 1 if ebr_offset is None else next(self._logical_number),
                 offset=part_offset,
                 size=partition.sector_size * self.sector_size,
                 type=partition.type,
-- 
2.43.0


From 2f376018789a8dade23f6b66eddb341eabba4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 03/61] fix: list a BSD type partition that holds no disklabel

A single partition of a BSD type without a valid disklabel made opening
the whole disk fail. List that partition itself, like any other.
---
 dissect/volume/disk/disk.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 183a508..4e57a3b 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -39,10 +39,15 @@ class Disk:
         for partition in main_scheme.partitions:
             # BSD disklabel can also be relative from any other partition
             if partition.type in BSD.TYPES:
-                self.scheme = BSD(partition.open(), sector_size=self.sector_size)
-                self.partitions.extend(self.scheme.partitions)
-            else:
-                self.partitions.append(partition)
+                try:
+                    self.scheme = BSD(partition.open(), sector_size=self.sector_size)
+                    self.partitions.extend(self.scheme.partitions)
+                    continue
+                except (DiskError, EOFError):
+                    # No (complete) disklabel in this partition, so expose the partition itself
+                    pass
+
+            self.partitions.append(partition)
 
         if isinstance(self.scheme, MBR) and any(p.type == 0xEE for p in self.partitions):
             raise DiskError("Found GPT type partition, but MBR scheme detected. Maybe 4K sector size.")
-- 
2.43.0


From 39744620a90da7e7ed8282740325c887b9ac9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:46 +0000
Subject: [PATCH 04/61] fix: refuse a protective MBR without GPT next to a BSD
 slice

The check looked at the scheme of the last BSD disklabel instead of the
scheme of the disk, so a BSD slice disabled it.
---
 dissect/volume/disk/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 4e57a3b..eae3df5 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -49,7 +49,7 @@ class Disk:
 
             self.partitions.append(partition)
 
-        if isinstance(self.scheme, MBR) and any(p.type == 0xEE for p in self.partitions):
+        if isinstance(main_scheme, MBR) and any(p.type == 0xEE for p in main_scheme.partitions):
             raise DiskError("Found GPT type partition, but MBR scheme detected. Maybe 4K sector size.")
 
     @property
-- 
2.43.0


From 82deb37afe3992bd52091aaf72937ade506a1587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:49 +0000
Subject: [PATCH 05/61] fix: keep the disk serial when a partition holds a BSD
 disklabel

The serial was looked up in the scheme of the BSD disklabel instead of
the MBR of the disk and was therefore lost.
---
 dissect/volume/disk/disk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index eae3df5..b23c589 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -35,7 +35,7 @@ class Disk:
         if not self.scheme:
             raise DiskError("Unable to detect a valid partition scheme:\n- {}".format("\n- ".join(errors)))
 
-        main_scheme = self.scheme
+        main_scheme = self._main_scheme = self.scheme
         for partition in main_scheme.partitions:
             # BSD disklabel can also be relative from any other partition
             if partition.type in BSD.TYPES:
@@ -54,6 +54,6 @@ class Disk:
 
     @property
     def serial(self) -> int | None:
-        if isinstance(self.scheme, MBR):
-            return self.scheme.mbr.vol_no
+        if isinstance(self._main_scheme, MBR):
+            return self._main_scheme.mbr.vol_no
         return None
-- 
2.43.0


From b775ac31e97bdf44da6bf8f6a4b7cb90f3b2a21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:02 +0000
Subject: [PATCH 06/61] fix: read only the current chunk from RAID4/5/6 members

A read that spans more than one chunk asked the first member for the
whole remaining length, so it returned too much and wrong data.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2d1edeb..e5f55ae 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -366,7 +366,7 @@ class RAID456Stream(AlignedStream):
 
             offset_on_disk = dd_dev.offset + dd_start + offset_in_device
             dd_dev.fh.seek(offset_on_disk)
-            result.append(dd_dev.fh.read(length))
+            result.append(dd_dev.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From 097014e1801a799af491c45bdcef76ee14a70848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:33 +0000
Subject: [PATCH 07/61] fix: read only the current chunk from RAID10 members

A read that spans more than one chunk asked the first member for the
whole remaining length, so it returned too much and wrong data.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index e5f55ae..2216af6 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -424,7 +424,7 @@ class RAID10Stream(AlignedStream):
 
             offset_on_disk = device.offset + device_start + (stripe * stripe_size) + offset_in_stripe
             device.fh.seek(offset_on_disk)
-            result.append(device.fh.read(length))
+            result.append(device.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From 084e1e63b5542adea905bef02e308ef97fca113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:52 +0000
Subject: [PATCH 08/61] fix: compare chunk-rounded sizes when counting RAID0
 strip zones

A member whose size is not a multiple of the chunk size was counted as
an extra zone that does not exist, which made opening the set fail.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2216af6..2c4eda3 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -98,7 +98,7 @@ class RAID0Stream(AlignedStream):
                 if idx1 == idx2:
                     break
 
-                if rounded_sizes[dev1] == dev2.size:
+                if rounded_sizes[dev1] == rounded_sizes[dev2]:
                     has_same_size = True
                     break
 
-- 
2.43.0


From f134dd52531a2eb93f1350c7866ee55136db9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:17 +0000
Subject: [PATCH 09/61] fix: select RAID0 zone members by their position in the
 zone

Later zones only hold the larger members, keyed by their number in the
set. Looking them up by position failed or picked the wrong member.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2c4eda3..8614e4e 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -166,7 +166,7 @@ class RAID0Stream(AlignedStream):
             chunk = offset_in_zone // (stripe_size * len(zone.devices))
 
             offset_in_device = (chunk * stripe_size) + offset_in_stripe
-            device_start, device = zone.devices[stripe % len(zone.devices)]
+            device_start, device = list(zone.devices.values())[stripe % len(zone.devices)]
 
             stripe_remaining = stripe_size - offset_in_stripe
             read_length = min(length, stripe_remaining)
-- 
2.43.0


From 0173c91226c07bdde99ce35480368737e6f8d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:22 +0000
Subject: [PATCH 10/61] fix: start later RAID0 zones where the previous zone
 ends on the members

The data of the second and later strip zones was read from the beginning
of the members instead of from behind the previous zones.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 8614e4e..b4ba307 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -165,7 +165,7 @@ class RAID0Stream(AlignedStream):
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
             chunk = offset_in_zone // (stripe_size * len(zone.devices))
 
-            offset_in_device = (chunk * stripe_size) + offset_in_stripe
+            offset_in_device = zone.dev_start + (chunk * stripe_size) + offset_in_stripe
             device_start, device = list(zone.devices.values())[stripe % len(zone.devices)]
 
             stripe_remaining = stripe_size - offset_in_stripe
-- 
2.43.0


From 3a2012f3a7864664bd141eca115281f8007d9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:26 +0000
Subject: [PATCH 11/61] fix: start reading a mirror at the member's data offset

The offset of a RAID1 volume on its member was ignored, so a mirror that
does not begin at the start of the member returned other data.
---
 dissect/volume/raid/raid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/raid/raid.py b/dissect/volume/raid/raid.py
index 55d1c6a..6f47fd3 100644
--- a/dissect/volume/raid/raid.py
+++ b/dissect/volume/raid/raid.py
@@ -69,7 +69,9 @@ class VirtualDisk:
             # Don't really care which mirror to read from, so just open the first disk we have.
             # We don't know if we have the first disk or the n-th disk so we select the first
             # available disk using an iterable.
-            _, (_, disk) = next(iter(self.disk_map.items()))
+            _, (disk_offset, disk) = next(iter(self.disk_map.items()))
+            if disk_offset:
+                return RangeStream(disk.fh, disk.offset + disk_offset, self.size)
             return disk.open()
         if self.level in (Level.RAID4, Level.RAID5, Level.RAID6):
             return RAID456Stream(self)
-- 
2.43.0


From 8bd796b49207b44831bf52f8a8fecb729f0c8680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:14 +0000
Subject: [PATCH 12/61] fix: read the RAID level of 0.90 MD superblocks as
 signed

Linear arrays have level -1, which was rejected as an invalid level.
---
 dissect/volume/md/c_md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/c_md.py b/dissect/volume/md/c_md.py
index a46e868..7924de1 100644
--- a/dissect/volume/md/c_md.py
+++ b/dissect/volume/md/c_md.py
@@ -85,7 +85,7 @@ typedef struct mdp_superblock_s {
     uint32  gvalid_words;                           /*  4 Number of used words in this section */
     char    set_uuid0[4];                           /*  5 Raid set identifier */
     uint32  ctime;                                  /*  6 Creation time */
-    uint32  level;                                  /*  7 Raid personality */
+    int32   level;                                  /*  7 Raid personality */
     uint32  size;                                   /*  8 Apparent size of each individual disk */
     uint32  nr_disks;                               /*  9 total disks in the raid set */
     uint32  raid_disks;                             /* 10 disks in a fully functional raid set */
-- 
2.43.0


From 2b4782ab3ac765d7e3c072a153a9141dd2391761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:22 +0000
Subject: [PATCH 13/61] fix: take the update time of an MD device from utime

It repeated the creation time.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 6d9ecf4..8d3618e 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -132,7 +132,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.raid_disk = self.sb.disks[self.dev_number].raid_disk
 
         self.creation_time = _parse_ts(self.sb.ctime)
-        self.update_time = _parse_ts(self.sb.ctime)
+        self.update_time = _parse_ts(self.sb.utime)
         self.level = self.sb.level
         self.layout = self.sb.layout
         self.raid_disks = self.sb.raid_disks
-- 
2.43.0


From e5ed4cd8faede89828ec43fed90cde1a3d0e6fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:29 +0000
Subject: [PATCH 14/61] fix: look for version 1.0 MD superblocks at a multiple
 of 4K

The superblock is 8K from the end, rounded down to 4K. It was not found on
devices whose size is not a multiple of 4K.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 8d3618e..f363d06 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -161,7 +161,7 @@ def find_super_block(fh: BinaryIO) -> tuple[int | None, int | None, int | None]:
         (size & ~(c_md.MD_RESERVED_SECTORS - 1)) - c_md.MD_RESERVED_SECTORS,
         # Major version 1
         # 0: At least 8K, but less than 12K, from end of device
-        size - 8 * 2,
+        (size - 8 * 2) & ~(4 * 2 - 1),
         # 1: At start of device
         0,
         # 2: 4K from start of device.
-- 
2.43.0


From 1ef0cc4d3e8e2585b1ea5791d28749a7497a6216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:08 +0000
Subject: [PATCH 15/61] fix: assemble MD arrays that have devices without a
 role

Spare and faulty devices have no role, and sorting the devices by role failed
when any of them was present.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index f363d06..a91da00 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -38,7 +38,7 @@ class MD(RAID):
 
 class MDConfiguration(Configuration):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        physical_disks = sorted(physical_disks, key=operator.attrgetter("raid_disk"))
+        physical_disks = sorted(physical_disks, key=lambda disk: (disk.raid_disk is None, disk.raid_disk))
 
         if len({disk.set_uuid for disk in physical_disks}) != 1:
             raise ValueError("Multiple MD sets detected, supply only the disks of a single set")
-- 
2.43.0


From 3730881f29086d43ddf54c101a56febd3d56884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:11 +0000
Subject: [PATCH 16/61] fix: give spare and faulty devices of 0.90 MD arrays no
 role

They are listed with their own number as role, so they were used as members.
---
 dissect/volume/md/md.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index a91da00..4bd86c0 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -129,7 +129,13 @@ class MDPhysicalDisk(PhysicalDisk):
             self.data_size = sb_offset
             self.dev_number = self.sb.this_disk.number
             self.device_uuid = None
-            self.raid_disk = self.sb.disks[self.dev_number].raid_disk
+
+            # Spare and faulty devices are listed with their own number as role
+            desc = self.sb.disks[self.dev_number]
+            if desc.state & (1 << c_md.MD_DISK_SYNC) and not desc.state & (1 << c_md.MD_DISK_FAULTY):
+                self.raid_disk = desc.raid_disk
+            else:
+                self.raid_disk = None
 
         self.creation_time = _parse_ts(self.sb.ctime)
         self.update_time = _parse_ts(self.sb.utime)
-- 
2.43.0


From df9aea8f7f49c64b4171d69b8f32892ada009ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:21 +0000
Subject: [PATCH 17/61] fix: give MD journal devices no role

A journal device took the place of the first member of the array.
---
 dissect/volume/md/md.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 4bd86c0..7669680 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -112,9 +112,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.device_uuid = UUID(bytes_le=self.sb.device_uuid)
 
             role = self.sb.dev_roles[self.sb.dev_number]
-            if role == c_md.MD_DISK_ROLE_JOURNAL:
-                self.raid_disk = 0
-            elif role <= c_md.MD_DISK_ROLE_MAX:
+            if role <= c_md.MD_DISK_ROLE_MAX:
                 self.raid_disk = role
             else:
                 self.raid_disk = None
-- 
2.43.0


From 0960c025e3fed77c1fa8be7ba9c7c66653a76ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:33 +0000
Subject: [PATCH 18/61] fix: treat MD devices that are not in the role table as
 spares

The device number of a new spare may be beyond the table. The kernel takes such
a device as a spare, here it raised an IndexError.
---
 dissect/volume/md/md.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 7669680..f34b5e8 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -111,7 +111,10 @@ class MDPhysicalDisk(PhysicalDisk):
             self.dev_number = self.sb.dev_number
             self.device_uuid = UUID(bytes_le=self.sb.device_uuid)
 
-            role = self.sb.dev_roles[self.sb.dev_number]
+            role = c_md.MD_DISK_ROLE_SPARE
+            if self.sb.dev_number < self.sb.max_dev:
+                role = self.sb.dev_roles[self.sb.dev_number]
+
             if role <= c_md.MD_DISK_ROLE_MAX:
                 self.raid_disk = role
             else:
-- 
2.43.0


From c8f86b3723804877080a38f6616d379207f75145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:53 +0000
Subject: [PATCH 19/61] fix: size of MD RAID0 volumes whose chunk size is no
 power of two

Members were rounded down with a bit mask, which is only right for powers of
two.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index f34b5e8..f4a06e7 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -57,7 +57,7 @@ class MDVirtualDisk(VirtualDisk):
         elif reference_disk.level == Level.RAID0:
             size = 0
             for _, disk in disk_map.values():
-                size += disk.size & ~(reference_disk.chunk_size - 1)
+                size += disk.size - disk.size % reference_disk.chunk_size
         elif reference_disk.level in (Level.RAID1, Level.RAID4, Level.RAID5, Level.RAID6, Level.RAID10):
             size = reference_disk.sb.size * SECTOR_SIZE
         else:
-- 
2.43.0


From 80c87c35992d1083d5b75f70d753934652363f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:19 +0000
Subject: [PATCH 20/61] fix: size of MD RAID10 volumes with more members than
 copies

The volume was cut off at the size of one member.
---
 dissect/volume/md/md.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index f4a06e7..c7ef462 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -58,8 +58,13 @@ class MDVirtualDisk(VirtualDisk):
             size = 0
             for _, disk in disk_map.values():
                 size += disk.size - disk.size % reference_disk.chunk_size
-        elif reference_disk.level in (Level.RAID1, Level.RAID4, Level.RAID5, Level.RAID6, Level.RAID10):
+        elif reference_disk.level in (Level.RAID1, Level.RAID4, Level.RAID5, Level.RAID6):
             size = reference_disk.sb.size * SECTOR_SIZE
+        elif reference_disk.level == Level.RAID10:
+            near_copies = reference_disk.layout & 0xFF
+            far_copies = (reference_disk.layout >> 8) & 0xFF
+            chunks = (reference_disk.sb.size * SECTOR_SIZE) // reference_disk.chunk_size // far_copies
+            size = chunks * reference_disk.raid_disks // near_copies * reference_disk.chunk_size
         else:
             raise ValueError(
                 "Invalid MD RAID configuration: No valid RAID level found for the reference disk, found: %d",
-- 
2.43.0


From c0a05908f80fd90a826173a5dab6e8831e2c57eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:03 +0000
Subject: [PATCH 21/61] fix: convert the start of a DDF virtual disk on its
 members to bytes

The start is stored in blocks but was used as an offset in bytes.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7dcb0b1..12e15fb 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -66,7 +66,7 @@ class DDFConfiguration(Configuration):
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
                 if matched_pd := pd_map.get(pds):
-                    vd_pd_map[sec * count + i] = (starting_block, matched_pd)
+                    vd_pd_map[sec * count + i] = (starting_block * matched_pd.block_size, matched_pd)
 
                 if pds != 0xFFFFFFFF:
                     i += 1
-- 
2.43.0


From 264094a0f4ca5d87e4c788cb6ae29bf2045924f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:18 +0000
Subject: [PATCH 22/61] fix: skip unused entries in the DDF virtual disk
 records

Removing a virtual disk leaves an unused entry behind, after which the entries
that follow were missed.
---
 dissect/volume/ddf/ddf.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 12e15fb..b2d93fc 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -283,7 +283,18 @@ def _read_physical_disk_records(fh: BinaryIO, offset: int) -> list[PhysicalDiskR
 def _read_virtual_disk_records(fh: BinaryIO, offset: int) -> list[VirtualDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Virtual_Disk_Records, c_ddf.DDF_VD_RECORD_SIGNATURE)
-    return [VirtualDiskRecord(fh) for _ in range(header.Populated_VDEs)]
+
+    records = []
+    for _ in range(header.Max_VDE_Supported):
+        if len(records) == header.Populated_VDEs:
+            break
+
+        # Entries that are not in use have a GUID of all ones and can be anywhere in the table
+        entry = fh.read(len(c_ddf.Virtual_Disk_Entry))
+        if not entry.startswith(b"\xff" * 24):
+            records.append(VirtualDiskRecord(io.BytesIO(entry)))
+
+    return records
 
 
 def _read_virtual_disk_configuration_records(
-- 
2.43.0


From 47d295832f063e0d5caaff7c00428729ce0970c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:35 +0000
Subject: [PATCH 23/61] fix: test the right flag for unicode names of DDF
 virtual disks

The flag for an enforced group was tested instead.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index b2d93fc..664bce4 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -229,7 +229,7 @@ class VirtualDiskRecord:
         self.state = self.header.VD_State
         self.init_state = self.header.Init_State
         name = self.header.VD_Name.split(b"\x00")[0]
-        self.name = name.decode(encoding="utf-8") if self.type & 0x02 else name.decode(encoding="ascii")
+        self.name = name.decode(encoding="utf-8" if self.type & c_ddf.DDF_VDE_UNICODE_NAME else "ascii")
 
     def __repr__(self) -> str:
         return f"<VirtualDiskRecord guid={self.guid} number={self.number} type={self.type:#x} name={self.name!r}>"
-- 
2.43.0


From 69d190dc245226af3a4e02d1429cd6cda87f867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:54 +0000
Subject: [PATCH 24/61] fix: skip unused entries in the DDF physical disk
 records

Removing a disk leaves an unused entry behind, after which the disks that
follow were not found in the table.
---
 dissect/volume/ddf/ddf.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 664bce4..415cf93 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -277,7 +277,18 @@ def _read_section_header(
 def _read_physical_disk_records(fh: BinaryIO, offset: int) -> list[PhysicalDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Physical_Disk_Records, c_ddf.DDF_PDR_SIGNATURE)
-    return [PhysicalDiskRecord(fh) for _ in range(header.Populated_PDEs)]
+
+    records = []
+    for _ in range(header.Max_PDE_Supported):
+        if len(records) == header.Populated_PDEs:
+            break
+
+        # Entries that are not in use have a GUID of all ones and can be anywhere in the table
+        entry = fh.read(len(c_ddf.Physical_Disk_Entry))
+        if not entry.startswith(b"\xff" * 24):
+            records.append(PhysicalDiskRecord(io.BytesIO(entry)))
+
+    return records
 
 
 def _read_virtual_disk_records(fh: BinaryIO, offset: int) -> list[VirtualDiskRecord]:
-- 
2.43.0


From fee9acde11a9842f254633d01ae57a8ea3099b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:20 +0000
Subject: [PATCH 25/61] fix: continue with the next DDF configuration record
 after one of another kind

The same record was read again and again, so virtual disks behind a spare
assignment, a vendor record or an unused slot were missed.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 415cf93..4040f7f 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -314,13 +314,13 @@ def _read_virtual_disk_configuration_records(
     result = []
     for _ in range(count):
         fh.seek(offset)
+        offset += size
         obj = VirtualDiskConfigurationRecord(fh, num_entries)
 
         if obj.header.Signature != c_ddf.DDF_VDCR_SIGNATURE:
             continue
 
         result.append(obj)
-        offset += size
 
     return result
 
-- 
2.43.0


From 88054689fdf936819d53519f45160f0e5ae48f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:06 +0000
Subject: [PATCH 26/61] fix: read thin devices correctly around unmapped blocks

An unmapped block ended the read with zeros: data collected before it was
dropped, and mapped blocks after it were not read.
---
 dissect/volume/dm/thin.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index fe18550..a34798a 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -75,20 +75,17 @@ class ThinDevice(AlignedStream):
 
         result = []
         while length > 0:
+            read_size = min(length, self.block_size)
+
             block_info = data_mapping.lookup([self.device_id, block])
             if block_info is None:
-                remaining = length
-                if self.size is None or (remaining := self.size - offset) > 0:
-                    return b"\x00" * min(length, remaining)
-
-                break
+                result.append(b"\x00" * read_size)
+            else:
+                block_time = int.from_bytes(block_info, "little")
+                data_block, _ = _unpack_block_time(block_time)
 
-            block_time = int.from_bytes(block_info, "little")
-            data_block, _ = _unpack_block_time(block_time)
-
-            read_size = min(length, self.block_size)
-            data_fh.seek(data_block * self.block_size)
-            result.append(data_fh.read(read_size))
+                data_fh.seek(data_block * self.block_size)
+                result.append(data_fh.read(read_size))
 
             length -= read_size
             offset += read_size
-- 
2.43.0


From e19e3466071ca927c4197897f33840d166ab602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:31 +0000
Subject: [PATCH 27/61] fix: keep the line after an empty comment in LVM2
 metadata

An empty comment swallowed the following line unless that had a string in it.
---
 dissect/volume/lvm/physical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 17ba161..42f46d6 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -113,7 +113,7 @@ def parse_metadata(string: str) -> dict:
     current = root
     parents = {}
 
-    s = re.sub(r"(#[^\"]+?)$", "", string, flags=re.MULTILINE)
+    s = re.sub(r"(#[^\"\n]*)$", "", string, flags=re.MULTILINE)
 
     it = iter(s.split("\n"))
     for line in it:
-- 
2.43.0


From 0500c1117148ed7c87743e32a2e69c690fcc575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:43 +0000
Subject: [PATCH 28/61] fix: accept blank lines and trailing blanks in lists of
 LVM2 metadata

Both made parsing fail with an IndexError.
---
 dissect/volume/lvm/physical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 42f46d6..3faec5d 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -150,8 +150,9 @@ def _parse_key_value(s: str, it: Iterator[str]) -> tuple[str, Any]:
     if value[0] == "[" and value[-1] != "]":
         lines = [value]
         for line in it:
+            line = line.strip()
             lines.append(line)
-            if line[-1] == "]":
+            if line.endswith("]"):
                 break
         value = "".join(lines)
 
-- 
2.43.0


From 803a75077c55db74960e4153ac84115fffeaf65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:09 +0000
Subject: [PATCH 29/61] fix: open LVM2 volume groups without logical volumes

The section with logical volumes is left out when there are none, which raised
a KeyError.
---
 dissect/volume/lvm/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 700d5f6..4014c2e 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -56,8 +56,8 @@ class VolumeGroup(MetaBase):
     max_lv: int
     max_pv: int
     physical_volumes: dict[str, PhysicalVolume]
-    logical_volumes: dict[str, LogicalVolume]
 
+    logical_volumes: dict[str, LogicalVolume] | None
     system_id: str | None
     allocation_policy: str | None
     profile: str | None
-- 
2.43.0


From 6433dbb50bef304394651720bb2b3300f5deb240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:44 +0000
Subject: [PATCH 30/61] fix: read LVM2 metadata that wraps around the end of
 its area

The metadata area is a circular buffer. Text that continues at the start of the
area was cut off or read from behind the area.
---
 dissect/volume/lvm/c_lvm2.py   |  2 ++
 dissect/volume/lvm/c_lvm2.pyi  |  1 +
 dissect/volume/lvm/physical.py | 12 ++++++++++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/lvm/c_lvm2.py b/dissect/volume/lvm/c_lvm2.py
index 3481010..8f13df4 100644
--- a/dissect/volume/lvm/c_lvm2.py
+++ b/dissect/volume/lvm/c_lvm2.py
@@ -46,6 +46,8 @@ SECTOR_SIZE = 512
 
 LABEL_SCAN_SECTORS = 4
 
+MDA_HEADER_SIZE = 512
+
 STATUS_FLAG_ALLOCATABLE = "ALLOCATABLE"  # pv only
 STATUS_FLAG_RESIZEABLE = "RESIZEABLE"  # vg only
 STATUS_FLAG_READ = "READ"
diff --git a/dissect/volume/lvm/c_lvm2.pyi b/dissect/volume/lvm/c_lvm2.pyi
index 408ad87..6229bc9 100644
--- a/dissect/volume/lvm/c_lvm2.pyi
+++ b/dissect/volume/lvm/c_lvm2.pyi
@@ -79,6 +79,7 @@ c_lvm: TypeAlias = _c_lvm
 SECTOR_SIZE: int
 
 LABEL_SCAN_SECTORS: int
+MDA_HEADER_SIZE: int
 
 STATUS_FLAG_ALLOCATABLE: str
 STATUS_FLAG_RESIZEABLE: str
diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 3faec5d..587639c 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -9,7 +9,7 @@ from typing import TYPE_CHECKING, Any, BinaryIO
 from dissect.util.stream import RunlistStream
 
 from dissect.volume.exceptions import LVM2Error
-from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, SECTOR_SIZE, c_lvm
+from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, MDA_HEADER_SIZE, SECTOR_SIZE, c_lvm
 
 if TYPE_CHECKING:
     from collections.abc import Iterator
@@ -70,8 +70,16 @@ class LVM2Device:
         # Unsure when a second area is used
         mda_header, raw_locn = self._metadata_areas[0]
 
+        # The metadata area is a circular buffer, so the text may continue at its start, after the header
+        wrap = max(0, raw_locn[0].offset + raw_locn[0].size - mda_header.size)
+
         self.fh.seek(mda_header.start + raw_locn[0].offset)
-        return parse_metadata(self.fh.read(raw_locn[0].size - 1).decode())
+        buf = self.fh.read(raw_locn[0].size - wrap)
+        if wrap:
+            self.fh.seek(mda_header.start + MDA_HEADER_SIZE)
+            buf += self.fh.read(wrap)
+
+        return parse_metadata(buf[:-1].decode())
 
     def read_sectors(self, sector: int, count: int) -> bytes:
         r = []
-- 
2.43.0


From 3245ec84a8eb4251447356b873d4d717c51e971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:47 +0000
Subject: [PATCH 31/61] fix: convert the creation time of LVM2 logical volumes
 to a datetime

It was left as a number, unlike the type says and unlike the times of the group
and of historical volumes.
---
 dissect/volume/lvm/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 4014c2e..8c5d653 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -237,6 +237,9 @@ class LogicalVolume(MetaBase):
         self._volume_group = parent
         self._segments = [Segment.from_dict(v, name=k, parent=self) for k, v in obj.items() if isinstance(v, dict)]
 
+        if self.creation_time:
+            self.creation_time = ts.from_unix(self.creation_time)
+
 
 @dataclass(init=False)
 class HistoricalLogicalVolume(MetaBase):
-- 
2.43.0


From 676eba8aada88e3caaec7c4848bd390079c7847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:07 +0000
Subject: [PATCH 32/61] fix: open LVM2 volume groups that have RAID volumes

LVM2 only writes the fields of a RAID segment that apply to its level and that
are set. All were required, so any group with a RAID volume raised a KeyError.
---
 dissect/volume/lvm/metadata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 8c5d653..da0328d 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -598,14 +598,13 @@ class VdoPoolSegment(Segment):
 
 @dataclass(init=False)
 class RAIDSegment(Segment):
-    device_count: int
-    stripe_count: int
-    region_size: int
-    stripe_size: int
-    writebehind: int
-    min_recovery_rate: int
-    max_recovery_rate: int
-
+    device_count: int | None
+    stripe_count: int | None
+    region_size: int | None
+    stripe_size: int | None
+    writebehind: int | None
+    min_recovery_rate: int | None
+    max_recovery_rate: int | None
     data_copies: int | None
     data_offset: int | None
     raids: list[str] | None
-- 
2.43.0


From 766ff8cdefd77a7d46d916d8f4aaf6e338a54ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:27 +0000
Subject: [PATCH 33/61] fix: interleave the stripes of striped LVM2 volumes

Segments with more than one stripe were read as if the stripes were
concatenated, and the stripe size was taken as a number of extents.
The stripe size is in sectors, and the data goes round the stripes in
pieces of that size.
---
 dissect/volume/lvm/metadata.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index da0328d..c27276b 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -13,6 +13,8 @@ from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
 from dissect.volume.lvm.c_lvm2 import SECTOR_SIZE
 from dissect.volume.lvm.physical import LVM2Device  # noqa: TC001
+from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
+from dissect.volume.raid.stream import Level
 
 if TYPE_CHECKING:
     from dissect.util.stream import RunlistStream
@@ -380,18 +382,28 @@ class StripedSegment(Segment):
         extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
 
         opened_pv = {}
+        disk_map = {}
 
-        offset = 0
-        for pv_name, extent_offset in self.stripes:
+        # Every stripe has an equal share of the extents of this segment
+        size = self.extent_count * extent_size
+        stripe_size = size // len(self.stripes)
+
+        for i, (pv_name, extent_offset) in enumerate(self.stripes):
             if pv_name not in opened_pv:
                 pv_fh = pv[pv_name].open()
                 opened_pv[pv_name] = pv_fh
             else:
                 pv_fh = opened_pv[pv_name]
 
-            stripe_size = (self.stripe_size or self.extent_count) * extent_size
-            stream.add(offset, stripe_size, pv_fh, extent_offset * extent_size)
-            offset += stripe_size
+            disk_map[i] = (0, PhysicalDisk(pv_fh, extent_offset * extent_size, stripe_size))
+
+        if len(disk_map) == 1:
+            stream.add(0, size, pv_fh, extent_offset * extent_size)
+        else:
+            # The data is interleaved over the stripes in pieces of stripe_size sectors
+            chunk_size = self.stripe_size * SECTOR_SIZE
+            vd = VirtualDisk("", "", size, Level.RAID0, 0, chunk_size, len(disk_map), disk_map)
+            stream.add(0, size, vd.open())
 
         return stream
 
-- 
2.43.0


From 6cea366dfa9b3fb76aaea4f85b941522bc06c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:16 +0000
Subject: [PATCH 34/61] fix: read LVM2 mirror segments at their offset in the
 mirror images

Every segment of a mirrored volume was read from the start of its
image, so only the first segment of such a volume was right.
---
 dissect/volume/lvm/metadata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index c27276b..6b39819 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -7,7 +7,7 @@ from types import UnionType
 from typing import TYPE_CHECKING, BinaryIO, get_args, get_origin, get_type_hints
 
 from dissect.util import ts
-from dissect.util.stream import MappingStream
+from dissect.util.stream import MappingStream, RangeStream
 
 from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
@@ -422,11 +422,13 @@ class MirrorSegment(Segment):
     mirrors: list[tuple[str, int]] | None
 
     def open(self) -> BinaryIO:
+        extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
+
         # Just open the first mirror we can
-        for lv_name, _ in self.mirrors:
+        for lv_name, extent_offset in self.mirrors:
             try:
                 lv = self._logical_volume._volume_group.logical_volumes[lv_name]
-                return lv.open()
+                return RangeStream(lv.open(), extent_offset * extent_size, self.extent_count * extent_size)
             except Exception:  # noqa: PERF203
                 pass
         else:
-- 
2.43.0


From 20ff97babd334de1bd754d576fcb7fbd8e6eb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:24 +0000
Subject: [PATCH 35/61] fix: find the LVM2 metadata when the first device has
 no copy of it

Physical volumes may be created without metadata areas. Opening a
volume group with such a device in front raised a TypeError.
---
 dissect/volume/lvm/lvm2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/lvm2.py b/dissect/volume/lvm/lvm2.py
index f49e428..b68fca8 100644
--- a/dissect/volume/lvm/lvm2.py
+++ b/dissect/volume/lvm/lvm2.py
@@ -28,7 +28,12 @@ class LVM2:
         devices = [LVM2Device(fh) if not isinstance(fh, LVM2Device) else fh for fh in self.fh]
         self.devices = {device.id: device for device in devices}
 
-        self.metadata = devices[0].metadata
+        # Not every device needs to have a copy of the metadata
+        metadata = [device.metadata for device in devices if device.metadata is not None]
+        if not metadata:
+            raise LVM2Error("Can't find volume group metadata")
+
+        self.metadata = metadata[0]
         self.contents: str = self.metadata["contents"]
         self.version: int = self.metadata["version"]
         self.description: str | None = self.metadata.get("description")
-- 
2.43.0


From 885b70f2160f8f16cb451027e639287f66739bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:27 +0000
Subject: [PATCH 36/61] fix: use the newest LVM2 metadata of all devices

The metadata of the first device was used, even if it was older than
the metadata of the other devices. LVM2 itself uses the metadata with
the highest sequence number.
---
 dissect/volume/lvm/lvm2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/lvm2.py b/dissect/volume/lvm/lvm2.py
index b68fca8..aad01de 100644
--- a/dissect/volume/lvm/lvm2.py
+++ b/dissect/volume/lvm/lvm2.py
@@ -33,7 +33,8 @@ class LVM2:
         if not metadata:
             raise LVM2Error("Can't find volume group metadata")
 
-        self.metadata = metadata[0]
+        # Devices that were missing during a change still have the old metadata, so use the newest
+        self.metadata = max(metadata, key=_metadata_seqno)
         self.contents: str = self.metadata["contents"]
         self.version: int = self.metadata["version"]
         self.description: str | None = self.metadata.get("description")
@@ -54,3 +55,7 @@ class LVM2:
     @property
     def vg(self) -> VolumeGroup:
         return self.volume_group
+
+
+def _metadata_seqno(metadata: dict) -> int:
+    return max((value["seqno"] for value in metadata.values() if isinstance(value, dict)), default=0)
-- 
2.43.0


From f85f1750bc09df0c5ff6a46c5bd2d22d57377548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:30 +0000
Subject: [PATCH 37/61] fix: skip empty and ignored LVM2 metadata areas

An area without raw location raised an IndexError, and an area with
the ignored flag, which is not kept up to date, was used anyway.
---
 dissect/volume/lvm/physical.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 587639c..2f98b57 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -63,12 +63,18 @@ class LVM2Device:
 
     @cached_property
     def metadata(self) -> dict | None:
-        if not self._metadata_areas:
+        # Metadata areas can be empty or marked as not in use
+        metadata_areas = [
+            (mda_header, raw_locn)
+            for mda_header, raw_locn in self._metadata_areas
+            if raw_locn and not raw_locn[0].flags & c_lvm.RAW_LOCN_IGNORED
+        ]
+        if not metadata_areas:
             return None
 
         # Only support the first metadata area for now
         # Unsure when a second area is used
-        mda_header, raw_locn = self._metadata_areas[0]
+        mda_header, raw_locn = metadata_areas[0]
 
         # The metadata area is a circular buffer, so the text may continue at its start, after the header
         wrap = max(0, raw_locn[0].offset + raw_locn[0].size - mda_header.size)
-- 
2.43.0


From acd9af90072e1e769b759d7ec9f159a7f83beb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:09 +0000
Subject: [PATCH 38/61] fix: read Vinum subdisks at their offset on the drive

A drive can hold several subdisks. All of them were read from the
start of the data section of the drive.
---
 dissect/volume/vinum/vinum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 721021e..075e6cc 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -176,7 +176,10 @@ class VinumConfiguration(Configuration):
                         sd.state != SDState.DOWN and sd.state != SDState.DEGRADED and sd.state != SDState.INITIALIZING
                     ):  # sd's in these states are probably not fit to use
                         if sd.drive in disks_by_name:
-                            disk_map[idx] = (0, disks_by_name[sd.drive])
+                            disk = disks_by_name[sd.drive]
+                            # The driveoffset is relative to the start of the drive, not of its data section
+                            disk_offset = sd.driveoffset - disk.offset if sd.driveoffset else 0
+                            disk_map[idx] = (disk_offset, disk)
                         else:
                             log.warning("Physical disk %r for sd %r is missing, ignoring sd", sd.drive, sd.name)
                     else:
-- 
2.43.0


From d635830d95230d30fe29eb05952a0bcb2842c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:07 +0000
Subject: [PATCH 39/61] fix: use the subdisk lengths of concatenated Vinum
 plexes

The subdisks were taken to be as long as their drives, so the data of
the second and later subdisks was found at the wrong place and the
volume was too long.
---
 dissect/volume/vinum/vinum.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 075e6cc..8fa7187 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -11,6 +11,7 @@ from functools import cached_property
 from typing import TYPE_CHECKING, BinaryIO, TypedDict, TypeVar
 
 from dissect.util import ts
+from dissect.util.stream import MappingStream
 
 from dissect.volume.raid.raid import (
     RAID,
@@ -283,6 +284,17 @@ class VinumPlexDisk(VirtualDisk):
             disk_map,
         )
 
+    def open(self) -> BinaryIO:
+        if self.level != Level.LINEAR or len(self.disk_map) != self.num_disks:
+            return super().open()
+
+        # An SD doesn't need to use all of its disk
+        stream = MappingStream()
+        sds = sorted(self.sds, key=lambda sd: sd.plexoffset)
+        for idx, (disk_offset, disk) in self.disk_map.items():
+            stream.add(sds[idx].plexoffset, sds[idx].length, disk.open(), disk_offset)
+        return stream
+
 
 class VinumMirrorDisk(VirtualDisk):
     def __init__(
-- 
2.43.0


From 6cf76d752fc5036c258ae2f627309dd67387046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:53 +0000
Subject: [PATCH 40/61] fix: allow the catalog entries of a VSS store in any
 order

The entry that describes the store was expected in front of the entry
with the locations of its data. Otherwise an AttributeError was raised.
---
 dissect/volume/vss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 9d3cf94..3d74a44 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -265,7 +265,8 @@ class Store:
         if len(descriptors) == 2:
             self.has_store_data = True
 
-        self.desc2, self.desc3 = descriptors
+        # The two descriptors can be in any order
+        self.desc2, self.desc3 = sorted(descriptors, key=lambda descriptor: descriptor.entry_type)
         self.volume_size = self.desc2.volume_size
         self.size = self.volume_size
         self.creation_time = self.desc2.creation_time
-- 
2.43.0


From ffb77213fcafd39b385c3e907fb41024d2ac3741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:00 +0000
Subject: [PATCH 41/61] fix: read VSS stores that don't have a previous bitmap

The offset of the previous bitmap is 0 if there is none. It was read
anyway, which raised an error for blocks that depend on it.
---
 dissect/volume/vss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 3d74a44..42e65b6 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -306,7 +306,10 @@ class Store:
         return StoreBitmap(self, self.desc3.store_bitmap_offset)
 
     @cached_property
-    def previous_bitmap(self) -> StoreBitmap:
+    def previous_bitmap(self) -> StoreBitmap | None:
+        # Not every store has a previous bitmap
+        if not self.desc3.store_previous_bitmap_offset:
+            return None
         return StoreBitmap(self, self.desc3.store_previous_bitmap_offset)
 
     def read_block(self, block: int, active_store: Store | None = None) -> bytes:
-- 
2.43.0


From bf3c1b875ceefea1a25891520bebf92614000374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:53 +0000
Subject: [PATCH 42/61] fix: refuse lists of VSS blocks that refer back to
 themselves

Reading such a list never ended and kept collecting data.
---
 dissect/volume/vss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 42e65b6..1d5198e 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -657,8 +657,13 @@ def read_block(fh: BinaryIO, offset: int, struct: type[Structure]) -> tuple[Stru
     header, buf = read_block_data(fh, offset, struct)
 
     r = [buf]
+    seen = {offset}
     offset = header.next_offset
     while offset != 0:
+        if offset in seen:
+            raise Error(f"List of VSS blocks refers back to the block at offset {offset:#x}")
+        seen.add(offset)
+
         nheader, buf = read_block_data(fh, offset, struct)
         offset = nheader.next_offset
         r.append(buf)
-- 
2.43.0


From e5a001cab474448aa146b66e003e962b597fbe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:55 +0000
Subject: [PATCH 43/61] fix: refuse device-mapper B-trees that refer back to
 themselves

A lookup that came across a cycle of nodes never ended.
---
 dissect/volume/dm/btree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dissect/volume/dm/btree.py b/dissect/volume/dm/btree.py
index 8cf31b3..5494e99 100644
--- a/dissect/volume/dm/btree.py
+++ b/dissect/volume/dm/btree.py
@@ -4,6 +4,7 @@ from functools import lru_cache
 from typing import BinaryIO
 
 from dissect.volume.dm.c_dm import SECTOR_SIZE, c_dm
+from dissect.volume.exceptions import DMError
 
 
 class BTree:
@@ -37,7 +38,12 @@ class BTree:
 
     def _lookup(self, root: int, key: int, want_high: bool = False) -> tuple[int | None, bytes | None]:
         block = root
+        seen = set()
         while True:
+            if block in seen:
+                raise DMError(f"B-tree node refers back to block {block}")
+            seen.add(block)
+
             node = self._read_node(block)
 
             low = -1
-- 
2.43.0


From a2b85fb935857dcd23f2f18de120b58b9fc802d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:58 +0000
Subject: [PATCH 44/61] fix: refuse device-mapper B-tree nodes that are neither
 internal nor leaf

A lookup that came across such a node read it over and over.
---
 dissect/volume/dm/btree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/volume/dm/btree.py b/dissect/volume/dm/btree.py
index 5494e99..f3588cf 100644
--- a/dissect/volume/dm/btree.py
+++ b/dissect/volume/dm/btree.py
@@ -70,6 +70,8 @@ class BTree:
                 block = int.from_bytes(node.value(result), "little")
             elif node.is_leaf:
                 return node.key(result), node.value(result)
+            else:
+                raise DMError(f"B-tree node at block {block} is neither an internal nor a leaf node")
 
 
 class Node:
-- 
2.43.0


From c0d403184b4172dae4c6e9b33fc2417dcc3ac282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:14 +0000
Subject: [PATCH 45/61] fix: give up on LVM2 mirrors that are built on
 themselves

Errors of the images are ignored as long as there is another image to
try, so that a volume which is twice an image of itself was opened an
exponential number of times.
---
 dissect/volume/lvm/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 6b39819..a379b42 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -429,7 +429,10 @@ class MirrorSegment(Segment):
             try:
                 lv = self._logical_volume._volume_group.logical_volumes[lv_name]
                 return RangeStream(lv.open(), extent_offset * extent_size, self.extent_count * extent_size)
-            except Exception:  # noqa: PERF203
+            except RecursionError:  # noqa: PERF203
+                # The mirror is built on itself
+                raise
+            except Exception:
                 pass
         else:
             raise LVM2Error("No mirrors available")
-- 
2.43.0


From fe0cf6a84445a628661cc4673e70db93650af10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:03 +0000
Subject: [PATCH 46/61] fix: take the distance of Apple partition map entries
 from the block size

The driver descriptor block states the block size of the disk, and every
entry of the partition map takes one block. Entries after the first were
read 512 bytes apart whatever the block size.
---
 dissect/volume/disk/schemes/apm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/disk/schemes/apm.py b/dissect/volume/disk/schemes/apm.py
index 4645580..5e35693 100644
--- a/dissect/volume/disk/schemes/apm.py
+++ b/dissect/volume/disk/schemes/apm.py
@@ -44,22 +44,25 @@ class APM:
         self.fh = fh
         self.sector_size = sector_size
         self.apm = c_apm.partition_entry(fh)
+        self._block_size = len(c_apm.partition_entry)
 
         if self.apm.signature == b"ER":
             # We parsed the boot jump, the offset is conveniently in reserved_1 field
-            fh.seek(self.apm.reserved_1)
+            # It's the block size of the disk, and each entry of the map takes a block
+            self._block_size = self.apm.reserved_1
+            fh.seek(self._block_size)
             self.apm = c_apm.partition_entry(fh)
 
         if self.apm.signature != b"PM":
             raise DiskError(f"Invalid APM signature, expected 'PM', got {self.apm.signature!r}.")
 
-        self._partitions_offset = fh.tell()
+        self._partitions_offset = fh.tell() - len(c_apm.partition_entry)
         self.partitions: list[Partition] = list(self._partitions())
 
     def _partitions(self) -> Iterator[Partition]:
-        self.fh.seek(self._partitions_offset)
         for i in range(self.apm.partition_count):
-            p = self.apm if i == 0 else c_apm.partition_entry(self.fh)
+            self.fh.seek(self._partitions_offset + i * self._block_size)
+            p = c_apm.partition_entry(self.fh)
 
             yield Partition(
                 disk=self,
-- 
2.43.0


From 26553964ede39dc77bb6d227a60c29e8ec13a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:21 +0000
Subject: [PATCH 47/61] fix: take the type name of a partition from its own
 scheme

The type name of a BSD partition was looked up in the table of MBR
partition types, where the same number means something else: a 4.2BSD
filesystem was called NTFS. A scheme that states the readable type of
its partitions now decides the type name as well.
---
 dissect/volume/disk/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/partition.py b/dissect/volume/disk/partition.py
index 00935a7..a0c5d41 100644
--- a/dissect/volume/disk/partition.py
+++ b/dissect/volume/disk/partition.py
@@ -219,7 +219,7 @@ class Partition:
         self.flags = flags
         self.guid = guid
         self.type_str = type_str or translate_partition_type(self.type)
-        self.type_name = translate_partition_type(self.type, False)
+        self.type_name = type_str or translate_partition_type(self.type, False)
         self.raw = raw
 
     def __repr__(self) -> str:
-- 
2.43.0


From 4add40aa542265f869995e7fb19a3de0270aa00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:44 +0000
Subject: [PATCH 48/61] fix: recognise the boot sector of a FAT volume made on
 Linux

The names by which a filesystem boot sector is told from a master boot
record did not include the ones mkfs.fat writes, so that such a volume
was opened as a disk without partitions instead of being refused.
---
 dissect/volume/disk/schemes/mbr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 5c4496e..f22503b 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -49,7 +49,8 @@ class MBR:
 
         # This sucks but don't have a better way atm
         sig = self.mbr.bootcode[3:11]
-        if any(v in sig for v in [b"MSDOS", b"MSWIN", b"NTFS", b"FAT", b"EXFAT", b"-FVE-FS-", b"SYSLINUX"]):
+        names = [b"MSDOS", b"MSWIN", b"NTFS", b"FAT", b"EXFAT", b"-FVE-FS-", b"SYSLINUX", b"mkdosfs", b"mkfs.fat"]
+        if any(v in sig for v in names):
             raise DiskError("Sector is a filesystem VBR, not an MBR")
 
         if self.mbr.bootcode[18:38] == b"Hit Esc for .altboot" or self.mbr.bootcode[168:174] == b"\r\nQNX ":
-- 
2.43.0


From dcd71cf7723be7b329cdcbee2ced812042c28cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:44 +0000
Subject: [PATCH 49/61] fix: read the time in the GUID of a DDF virtual disk as
 big endian

All numbers in DDF metadata are big endian, including the time of
creation that is part of the GUID of a virtual disk.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 4040f7f..4d3da97 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -240,7 +240,7 @@ class VirtualDiskConfigurationRecord:
         self.header = c_ddf.VD_Configuration_Record(fh)
 
         self.guid = self.header.VD_GUID
-        self.guid_timestamp = ts.from_unix(DECADE + int.from_bytes(self.guid[16:20], "little"))
+        self.guid_timestamp = ts.from_unix(DECADE + int.from_bytes(self.guid[16:20], "big"))
         self.timestamp = ts.from_unix(DECADE + self.header.Timestamp)
         self.sequence_number = self.header.Sequence_Number
         self.primary_element_count = self.header.Primary_Element_Count
-- 
2.43.0


From ecd948749878512aadf509bee59eb1aeee041b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:27 +0000
Subject: [PATCH 50/61] fix: report a wrong signature of a DDF section as such

The error message asked the structure for an attribute it does not have,
so that a section with a wrong signature ended in an AttributeError
instead of the DDFError.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 4d3da97..b47dc30 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -270,7 +270,7 @@ def _read_section_header(
 ) -> c_ddf.Physical_Disk_Records | c_ddf.Virtual_Disk_Records | c_ddf.Controller_Data | c_ddf.Physical_Disk_Data:
     obj = structure(fh)
     if obj.Signature != signature:
-        raise DDFError(f"Invalid {structure.name} header. Signature: {obj.Signature:#010x}, expected {signature:#x}")
+        raise DDFError(f"Invalid {structure.__name__} header. Signature: {obj.Signature:#010x}, expected {signature:#x}")
     return obj
 
 
-- 
2.43.0


From 2269eff981994a4ee121109c6618dbd1a8f05448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:22 +0000
Subject: [PATCH 51/61] fix: refuse a GPT with entries smaller than an entry

The size of an entry of the partition array was used as it is.  With a
size of zero every entry is read from the same place, as often as the
header says: up to four billion times, whatever the size of the disk.
---
 dissect/volume/disk/schemes/gpt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/disk/schemes/gpt.py b/dissect/volume/disk/schemes/gpt.py
index b149e1c..52215a4 100644
--- a/dissect/volume/disk/schemes/gpt.py
+++ b/dissect/volume/disk/schemes/gpt.py
@@ -71,6 +71,9 @@ class GPT:
         if self.gpt.signature != b"EFI PART":
             raise DiskError(f"Invalid GPT signature, expected 'EFI PART', got {self.gpt.signature!r}.")
 
+        if self.gpt.partition_entry_size < len(c_gpt.GPT_PARTITION):
+            raise DiskError(f"Invalid GPT partition entry size: {self.gpt.partition_entry_size}")
+
         self.partitions: list[Partition] = list(self._partitions())
 
     def _partitions(self) -> Iterator[Partition]:
-- 
2.43.0


From b9c10554a55f3696cad0aeadb6d7b6fe54cf51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:54 +0000
Subject: [PATCH 52/61] fix: end APM partition names and types at their
 terminator

The name and the type of an entry are strings that end at the first NUL
byte. What remains of an earlier, longer string behind it was made part
of the reported name or type.
---
 dissect/volume/disk/schemes/apm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/disk/schemes/apm.py b/dissect/volume/disk/schemes/apm.py
index 5e35693..978f960 100644
--- a/dissect/volume/disk/schemes/apm.py
+++ b/dissect/volume/disk/schemes/apm.py
@@ -69,7 +69,7 @@ class APM:
                 number=i + 1,  # partitions are 1-indexed
                 offset=p.partition_start * self.sector_size,
                 size=p.partition_size * self.sector_size,
-                type=p.partition_type.rstrip(b"\x00").decode(),
-                name=p.partition_name.rstrip(b"\x00").decode(),
+                type=p.partition_type.split(b"\x00")[0].decode(),
+                name=p.partition_name.split(b"\x00")[0].decode(),
                 raw=p,
             )
-- 
2.43.0


From c65233c18febbbf41b26de11d075d93cdd92c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:07 +0000
Subject: [PATCH 53/61] fix: use members of MD linear arrays up to a multiple
 of the chunk size only

The chunk size of a linear array is its rounding: the kernel leaves out what
a member has beyond a multiple of it. Counting the whole member shifted the
data of all members that follow.
---
 dissect/volume/md/md.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index c7ef462..2cce53d 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -7,6 +7,7 @@ from typing import TYPE_CHECKING, BinaryIO
 from uuid import UUID
 
 from dissect.util import ts
+from dissect.util.stream import MappingStream
 
 from dissect.volume.md.c_md import SECTOR_SIZE, c_md
 from dissect.volume.raid.raid import RAID, Configuration, PhysicalDisk, VirtualDisk
@@ -53,7 +54,9 @@ class MDVirtualDisk(VirtualDisk):
         disk_map = {disk.raid_disk: (0, disk) for disk in physical_disks if disk.raid_disk is not None}
 
         if reference_disk.level == Level.LINEAR:
-            size = sum(disk.size for _, disk in disk_map.values())
+            # Members are only used up to a multiple of the chunk size, if there is one
+            rounding = reference_disk.chunk_size or 1
+            size = sum(disk.size - disk.size % rounding for _, disk in disk_map.values())
         elif reference_disk.level == Level.RAID0:
             size = 0
             for _, disk in disk_map.values():
@@ -82,6 +85,19 @@ class MDVirtualDisk(VirtualDisk):
             disk_map,
         )
 
+    def open(self) -> BinaryIO:
+        if self.level != Level.LINEAR or not self.stripe_size or len(self.disk_map) != self.num_disks:
+            return super().open()
+
+        # Reference: linear_conf
+        stream = MappingStream()
+        offset = 0
+        for _, (_, disk) in sorted(self.disk_map.items()):
+            size = disk.size - disk.size % self.stripe_size
+            stream.add(offset, size, disk.open())
+            offset += size
+        return stream
+
 
 class MDPhysicalDisk(PhysicalDisk):
     """Parse metadata from an MD device.
-- 
2.43.0


From 1e3a43586f8e6200ad87250b08347b2972b1b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:10 +0000
Subject: [PATCH 54/61] fix: read RAID0 arrays of the original layout

In the original layout of arrays with members of different sizes, the chunks
behind the first zone are not counted from the start of their zone. The
stream treated all such arrays as if they had the alternate layout.
---
 dissect/volume/raid/stream.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index b4ba307..a44f4cf 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -48,6 +48,9 @@ class Layout(IntEnum):
     PARITY_N_6 = PARITY_N
 
 
+RAID0_ORIGINAL_LAYOUT = 1
+
+
 class LinearStream(MappingStream):
     """Implements a stream on a linear RAID set."""
 
@@ -159,7 +162,12 @@ class RAID0Stream(AlignedStream):
                 break
 
             read_offset = offset_in_zone
-            if len(self.zones) == 1 or len(self.zones[1].devices) == 1:
+            if (
+                len(self.zones) == 1
+                or len(self.zones[1].devices) == 1
+                # In the original layout, the chunks of a zone are not counted from its start
+                or self.virtual_disk.layout == RAID0_ORIGINAL_LAYOUT
+            ):
                 read_offset = offset
 
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
-- 
2.43.0


From 072dc2a40ca501ade877d6c0668c49d27c76622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:13 +0000
Subject: [PATCH 55/61] fix: end Vinum drive names at their terminator

A drive that is renamed to a shorter name keeps the end of the longer one
behind the terminator. The configuration then had no drive of that name.
---
 dissect/volume/vinum/vinum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 8fa7187..fb8ceec 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -341,8 +341,8 @@ class VinumPhysicalDisk(PhysicalDisk):
         else:
             raise ValueError("File-like object is not a Vinum device")
 
-        self.id = self.header.label.name.rstrip(b"\x00")
-        self.name = self.header.label.name.rstrip(b"\x00").decode(errors="backslashreplace")
+        self.id = self.header.label.name.split(b"\x00")[0]
+        self.name = self.id.decode(errors="backslashreplace")
 
         last_update = self.header.label.last_update
         config_epoch = last_update.sec + last_update.usec * 1e-6
-- 
2.43.0


From 9e6a7d70cf6eb420323ac51cdeee7dcc2078d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:17 +0000
Subject: [PATCH 56/61] fix: prefer the most recent device of an MD role

A device that was replaced still claims its role. Depending on the order of
the devices, it took the place of the one that replaced it, and mirrors were
read from members that missed the last updates.
---
 dissect/volume/md/md.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 2cce53d..5404ca8 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -50,8 +50,14 @@ class MDConfiguration(Configuration):
 
 class MDVirtualDisk(VirtualDisk):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        reference_disk = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)[0]
-        disk_map = {disk.raid_disk: (0, disk) for disk in physical_disks if disk.raid_disk is not None}
+        # Devices that left the set don't get its updates, so prefer the most recent ones
+        physical_disks = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)
+        reference_disk = physical_disks[0]
+
+        disk_map = {}
+        for disk in physical_disks:
+            if disk.raid_disk is not None:
+                disk_map.setdefault(disk.raid_disk, (0, disk))
 
         if reference_disk.level == Level.LINEAR:
             # Members are only used up to a multiple of the chunk size, if there is one
-- 
2.43.0


From 6b790594ef94a8c3d2087818bc05e29d88670f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:20 +0000
Subject: [PATCH 57/61] fix: prefer the most recent DDF metadata

Disks that left a group keep the records of an earlier state of it.
Depending on the order of the disks these replaced the current records.
---
 dissect/volume/ddf/ddf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index b47dc30..6495201 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -48,7 +48,8 @@ class DDFConfiguration(Configuration):
         vdcr_map: dict[bytes, VirtualDiskConfigurationRecord] = {}
         vdcr_uniq: dict[tuple[bytes, int], VirtualDiskConfigurationRecord] = {}
 
-        for pd in physical_disks:
+        # Disks that left the group don't get its updates, so let the most recent ones replace them
+        for pd in sorted(physical_disks, key=lambda pd: pd.primary_header.Sequence_Number):
             pd_map[pd.reference] = pd
             vde_map.update({vde.guid: vde for vde in pd.virtual_disk_records})
             vdcr_map.update({vdcr.guid: vdcr for vdcr in pd.virtual_disk_configuration_records})
-- 
2.43.0


From 32165b84f8b41a275dbdca2f85381f8322747e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:23 +0000
Subject: [PATCH 58/61] fix: read the thin pool superblock from the start of
 the metadata device

The superblock was read from where the handle happened to be, so a pool
could not be opened twice on the same handles.
---
 dissect/volume/dm/thin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index a34798a..3973d8e 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -35,6 +35,7 @@ class Metadata:
 
     def __init__(self, fh: BinaryIO):
         self.fh = fh
+        self.fh.seek(0)
         self.sb = c_dm.thin_disk_superblock(fh)
         if self.sb.magic != c_dm.THIN_SUPERBLOCK_MAGIC:
             raise DMError("Invalid magic for thin-pool metadata superblock")
-- 
2.43.0


From e5d21d8d09313d5bbab4b4d7b447132550106929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:27 +0000
Subject: [PATCH 59/61] fix: read unmapped blocks of thin volumes from their
 external origin

A thin volume with an external origin has what the origin has until a
block is written. Those blocks were read as zeros.
---
 dissect/volume/dm/thin.py      | 17 +++++++++++++----
 dissect/volume/lvm/metadata.py |  7 ++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index 3973d8e..79ac51f 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -18,7 +18,7 @@ class ThinPool:
 
         self.metadata = Metadata(metadata_fh)
 
-    def open(self, device_id: int, size_hint: int | None = None) -> ThinDevice:
+    def open(self, device_id: int, size_hint: int | None = None, origin_fh: BinaryIO | None = None) -> ThinDevice:
         """Open a thin device on this pool.
 
         No size information is stored in the pool, so it's recommended to provide a size hint.
@@ -26,8 +26,9 @@ class ThinPool:
         Args:
             device_id: The device ID to open.
             size_hint: Optional size hint for the device to open.
+            origin_fh: Optional file-like object of the external origin of the device to open.
         """
-        return ThinDevice(self, device_id, size_hint)
+        return ThinDevice(self, device_id, size_hint, origin_fh)
 
 
 class Metadata:
@@ -54,11 +55,15 @@ class ThinDevice(AlignedStream):
         pool: The pool the device belongs to.
         device_id: The device ID of the device.
         size_hint: Optional device size hint.
+        origin_fh: Optional file-like object to read blocks from that the device has no mapping for.
     """
 
-    def __init__(self, pool: ThinPool, device_id: int, size_hint: int | None = None):
+    def __init__(
+        self, pool: ThinPool, device_id: int, size_hint: int | None = None, origin_fh: BinaryIO | None = None
+    ):
         self.pool = pool
         self.device_id = device_id
+        self.origin_fh = origin_fh
         self.block_size = self.pool.metadata.data_block_size * SECTOR_SIZE
 
         details_buf = self.pool.metadata.device_details.lookup(device_id)
@@ -80,7 +85,11 @@ class ThinDevice(AlignedStream):
 
             block_info = data_mapping.lookup([self.device_id, block])
             if block_info is None:
-                result.append(b"\x00" * read_size)
+                buf = b""
+                if self.origin_fh is not None:
+                    self.origin_fh.seek(offset)
+                    buf = self.origin_fh.read(read_size)
+                result.append(buf.ljust(read_size, b"\x00"))
             else:
                 block_time = int.from_bytes(block_info, "little")
                 data_block, _ = _unpack_block_time(block_time)
diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index a379b42..3310282 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -469,7 +469,12 @@ class ThinSegment(Segment):
         thin_pool_lv = self._logical_volume._volume_group.logical_volumes[self.thin_pool]
         thin_pool_segment: ThinPoolSegment = thin_pool_lv.segments[0]
         thin_pool = thin_pool_segment.open_pool()
-        return thin_pool.open(self.device_id, self.extent_count * extent_size)
+
+        origin_fh = None
+        if self.external_origin:
+            origin_fh = self._logical_volume._volume_group.logical_volumes[self.external_origin].open()
+
+        return thin_pool.open(self.device_id, self.extent_count * extent_size, origin_fh)
 
 
 @dataclass(init=False)
-- 
2.43.0


From 3a2b531a59b559f966d3d008263c8c415bbe37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:30 +0000
Subject: [PATCH 60/61] fix: open segments whose areas are on another kind of
 volume

While extents are being moved, a striped segment has stripes on the
logical volume that is being moved, and the mirrors of that volume are on
physical volumes. Neither could be opened.
---
 dissect/volume/lvm/metadata.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 3310282..8438551 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -318,6 +318,12 @@ class Segment(MetaBase):
     def open(self) -> BinaryIO:
         raise NotImplementedError(f"{self.__class__.__name__} is not implemented yet")
 
+    def _open_area(self, name: str) -> BinaryIO:
+        """Open the physical or logical volume an area of this segment is on."""
+        vg = self._logical_volume._volume_group
+        volume = vg.physical_volumes.get(name) or vg.logical_volumes[name]
+        return volume.open()
+
     @classmethod
     def from_dict(cls, obj: dict, name: str | None = None, parent: MetaBase | None = None) -> Segment:
         SEGMENT_CLASS_MAP = {
@@ -378,7 +384,6 @@ class StripedSegment(Segment):
 
     def open(self) -> BinaryIO:
         stream = MappingStream()
-        pv = self._logical_volume._volume_group.physical_volumes
         extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
 
         opened_pv = {}
@@ -390,7 +395,7 @@ class StripedSegment(Segment):
 
         for i, (pv_name, extent_offset) in enumerate(self.stripes):
             if pv_name not in opened_pv:
-                pv_fh = pv[pv_name].open()
+                pv_fh = self._open_area(pv_name)
                 opened_pv[pv_name] = pv_fh
             else:
                 pv_fh = opened_pv[pv_name]
@@ -427,8 +432,8 @@ class MirrorSegment(Segment):
         # Just open the first mirror we can
         for lv_name, extent_offset in self.mirrors:
             try:
-                lv = self._logical_volume._volume_group.logical_volumes[lv_name]
-                return RangeStream(lv.open(), extent_offset * extent_size, self.extent_count * extent_size)
+                fh = self._open_area(lv_name)
+                return RangeStream(fh, extent_offset * extent_size, self.extent_count * extent_size)
             except RecursionError:  # noqa: PERF203
                 # The mirror is built on itself
                 raise
-- 
2.43.0


From 6a7455f5ad25f2a23698fe7c971052be9147926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:34 +0000
Subject: [PATCH 61/61] fix: prefer MD devices that are not being rebuilt

A device that replaces another one has its role and its event count while
the data is still being copied. It could take the place of the device it
replaces, and a mirror could be read from a member without its data.
---
 dissect/volume/md/c_md.py | 2 ++
 dissect/volume/md/md.py   | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/md/c_md.py b/dissect/volume/md/c_md.py
index 7924de1..5757872 100644
--- a/dissect/volume/md/c_md.py
+++ b/dissect/volume/md/c_md.py
@@ -58,6 +58,8 @@ md_def = """
                                                      */
 #define MD_DISK_JOURNAL                 18          /* disk is used as the write journal in RAID-5/6 */
 
+#define MD_FEATURE_RECOVERY_OFFSET      2           /* recovery_offset is present and must be honoured */
+
 #define MD_DISK_ROLE_SPARE              0xffff
 #define MD_DISK_ROLE_FAULTY             0xfffe
 #define MD_DISK_ROLE_JOURNAL            0xfffd
diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 5404ca8..84af25d 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import io
-import operator
 import struct
 from typing import TYPE_CHECKING, BinaryIO
 from uuid import UUID
@@ -51,7 +50,8 @@ class MDConfiguration(Configuration):
 class MDVirtualDisk(VirtualDisk):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
         # Devices that left the set don't get its updates, so prefer the most recent ones
-        physical_disks = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)
+        # Devices that are still being rebuilt do, but don't have all the data yet
+        physical_disks = sorted(physical_disks, key=lambda disk: (disk.events, not disk.rebuilding), reverse=True)
         reference_disk = physical_disks[0]
 
         disk_map = {}
@@ -137,6 +137,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.data_size = self.sb.data_size
             self.dev_number = self.sb.dev_number
             self.device_uuid = UUID(bytes_le=self.sb.device_uuid)
+            self.rebuilding = bool(self.sb.feature_map & c_md.MD_FEATURE_RECOVERY_OFFSET)
 
             role = c_md.MD_DISK_ROLE_SPARE
             if self.sb.dev_number < self.sb.max_dev:
@@ -157,6 +158,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.data_size = sb_offset
             self.dev_number = self.sb.this_disk.number
             self.device_uuid = None
+            self.rebuilding = False
 
             # Spare and faulty devices are listed with their own number as role
             desc = self.sb.disks[self.dev_number]
-- 
2.43.0

