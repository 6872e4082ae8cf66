"""Source of properties.jsonl and MANIFEST.json: run ``python3 tools/props.py`` after editing."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "dissect/volume/"
PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    assert len(title) <= 80, title
    PROPS.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [V + f for f in files],
                "state": [{"name": n, "meaning": m, "where": V + w} for n, m, w in state],
                "mechanism": [{"name": n, "where": V + w} for n, w in mechanism],
                "observe_at": observe,
                "hook_needed": None,
            },
            "_technique": technique,
            "_note": note,
        }
    )


PBT = "property-based testing (hypothesis): "
TRUST = (
    "Sampled, not exhaustive. Trusts the independent encoder in vlib (written from the on-disk format), "
    "dissect.cstruct/dissect.util and the Python runtime. "
)

# ---------------------------------------------------------------------------------------------------------- disk
prop(
    "C01",
    "MBR primary partitions are listed exactly as the table states",
    "Opening a disk with a master boot record lists exactly the non-empty, non-extended entries of the primary table, "
    "in table order, each with its 1-based slot as number and the byte offset and size (sectors times the given sector "
    "size, relative to where the table starts), type, boot flag and readable type the entry states. "
    "This does not depend on boot code, messages in the boot code, CHS fields, the disk signature or on how many slots "
    "are in use, and the disk's serial is the signature stored in the table, while disks of other kinds have none.",
    ["inputs", "configurations"],
    "all 4-slot tables (any type byte, any 32-bit start and length, any boot flag), any boot code that is not a "
    "filesystem boot record, any sector size, table at the start of the handle or at the handle's current position",
    "One 2-partition image is opened by the tests (and it is not even available here: git-LFS); no test varies slots, "
    "sector size, flags, empty slots, table position or large LBAs.",
    ["disk/disk.py", "disk/schemes/mbr.py", "disk/partition.py"],
    [("primary table walk", "disk/schemes/mbr.py MBR"), ("type translation", "disk/partition.py")],
    ["Disk(fh, sector_size).partitions: number, offset, size, type, flags, type_str, type_name", "Disk.serial"],
    PBT + "generated MBRs from an independent encoder, entry-by-entry comparison",
    TRUST + "Types that lead to another scheme (0xEE, BSD slices, extended) are covered by C02, C04, C06, C07.",
)
prop(
    "C02",
    "Logical partitions of every extended partition are found where they are",
    "Every logical partition reachable through a chain of extended boot records is listed exactly once, at the position "
    "its own boot record states, in chain order in place of the extended partition it belongs to, in whichever entry in front of the link it is. "
    "Chain links count from the start of the extended partition they are part of, also when the primary table holds "
    "more than one extended partition, and boot records without a logical partition only link on. "
    "Logical partitions are numbered 5, 6, 7 and so on, so that no two partitions of a disk share a number.",
    ["inputs", "configurations"],
    "all chains of up to 100 extended boot records in any order on disk, zero to two extended partitions in any slot, any "
    "mix of extended type codes, empty logical slots, any sector size and table position",
    "No test image contains an extended partition at all.",
    ["disk/schemes/mbr.py"],
    [("recursive EBR walk", "disk/schemes/mbr.py MBR")],
    ["Disk(fh, sector_size).partitions"],
    PBT + "generated EBR chains, comparison with the model the chain was built from",
    TRUST,
)
prop(
    "C03",
    "GPT partitions are listed exactly as the partition array states",
    "Opening a disk with a GUID partition table lists exactly the used entries of the partition array in array order: "
    "number is the 1-based index in the array, offset and size cover first to last sector, and type GUID with "
    "its readable name, unique GUID, attribute flags and name (up to its terminator, all 36 UTF-16 units usable, whatever "
    "is no character aside) are those of the entry. "
    "The position of the array, the number of entries and the size of an entry are taken from the header, for any "
    "sector size.",
    ["inputs", "configurations"],
    "all partition arrays (1..1100 slots, any used subset, entry sizes 128..4096, array anywhere), all GUIDs, flags and "
    "names including astral characters and unterminated ones, sector sizes 512..4096",
    "Five fixed images with 128-byte entries at LBA 2 (not available here); entry size, array position, flags, sparse "
    "slots, long names never vary.",
    ["disk/schemes/gpt.py", "disk/partition.py"],
    [("header and array walk", "disk/schemes/gpt.py GPT")],
    ["Disk(fh, sector_size).partitions: number, offset, size, type, guid, flags, name, type_str"],
    PBT + "generated GPTs from an independent encoder, entry-by-entry comparison",
    TRUST + "Known finding: the size is one sector short (pinned by the project's tests); both the right size and "
    "exactly that size are accepted, anything else is a violation.",
)
prop(
    "C04",
    "Hybrid MBR/GPT disks list both tables, the GPT once",
    "On a disk whose master boot record holds protective entries next to ordinary ones, the partition list is the "
    "ordinary entries in table order, with all GPT partitions inserted exactly once at the place of the first "
    "protective entry; the GPT is the one that first protective entry points at. "
    "Both kinds keep the numbers of their own table.",
    ["inputs", "configurations"],
    "all placements of 1..4 protective entries among ordinary ones, any position of the GPT header, any array",
    "One hybrid image with one arrangement (not available here).",
    ["disk/schemes/gpt.py", "disk/disk.py"],
    [("hybrid merge", "disk/schemes/gpt.py GPT")],
    ["Disk(fh).partitions and Disk.scheme"],
    PBT + "generated hybrid tables, comparison with the merged model",
    TRUST,
)
prop(
    "C05",
    "Apple partition map entries are listed exactly as stored",
    "Opening a disk with an Apple partition map lists as many partitions as the map says it has, in map order with "
    "1-based numbers, each with the byte offset and size, name and type (up to their terminator) of its entry. "
    "The map is found after a driver descriptor block, with one entry per block of the size that states, or at the start "
    "of the handle.",
    ["inputs", "configurations"],
    "all maps of 1..300 entries with any 32-bit start and length, names and types of 0..32 bytes, with and without "
    "driver descriptor, sector and block sizes 512..4096",
    "One 3-entry image (not available here); full-width names, large maps and big offsets never occur.",
    ["disk/schemes/apm.py"],
    [("map walk", "disk/schemes/apm.py APM")],
    ["Disk(fh, sector_size).partitions: number, offset, size, type, name"],
    PBT + "generated maps from an independent encoder",
    TRUST,
)
prop(
    "C06",
    "BSD disklabels are resolved standalone and inside a slice",
    "The partitions of a 32-bit or 64-bit BSD disklabel are listed with label slot number, offset relative to the "
    "label's own device (32-bit: minus the raw partition's start), size, filesystem type and, for 64-bit labels, unique "
    "GUID; the raw slot, unused slots and slots that start before the raw partition are left out. "
    "A slice of a BSD type in a MBR or GPT is replaced, in place, by the partitions of the label it contains, which read "
    "from inside that slice; when it contains no valid label the slice itself is listed and its neighbours are "
    "unaffected.",
    ["inputs", "configurations"],
    "all labels of 3..22 slots with any raw offset and used subset, 32 and 64 bit, standalone or nested in any MBR slot "
    "(types a5 a6 a9 6c) or GPT entry (three GUIDs), several slices, with and without a valid label",
    "Two fixed labels (not available here); no slice without a label, no second slice, no non-zero raw offset.",
    ["disk/disk.py", "disk/schemes/bsd.py"],
    [("label parse", "disk/schemes/bsd.py BSD"), ("slice substitution", "disk/disk.py Disk")],
    ["Disk(fh).partitions: number, offset, size, type, guid, type_str, open().read()"],
    PBT + "generated labels and slices, comparison with the model and with the bytes placed in each partition",
    TRUST + "Offsets are label relative as the code defines; absolute OpenBSD/NetBSD style offsets are not claimed.",
)
prop(
    "C07",
    "The right partition scheme is recognised and everything else is refused",
    "A disk is opened with the scheme its content is valid for (GPT before MBR before Apple before BSD), judged from the "
    "handle's position, and a volume without a valid table - a filesystem boot record, a QNX boot sector, a short, "
    "zeroed or arbitrary image, or a table with one wrong signature - is refused with a DiskError and no other error. "
    "A protective MBR whose GPT header is not at the expected sector is refused too, so a 4K disk opened with 512-byte "
    "sectors never yields a partition list.",
    ["inputs", "configurations", "fault_sequences"],
    "valid images of every scheme, every single-signature corruption of them, boot sectors with each filesystem "
    "signature, truncations at any length, arbitrary bytes",
    "Three all-zero images and one 4K image are the only negative tests.",
    ["disk/disk.py", "disk/schemes/mbr.py", "disk/schemes/gpt.py", "disk/schemes/apm.py", "disk/schemes/bsd.py"],
    [("scheme probing order", "disk/disk.py Disk"), ("boot record rejection", "disk/schemes/mbr.py MBR")],
    ["Disk(fh, sector_size): scheme type, partitions or DiskError"],
    PBT + "generated valid images, single-field mutations, and byte-level fuzzing with an error oracle",
    TRUST + "For arbitrary bytes only the kind of error is judged.",
)
prop(
    "C08",
    "A partition's stream is exactly that partition's bytes",
    "Reading an opened partition delivers exactly the bytes of the disk from its offset up to its size and nothing of "
    "its neighbours, for every partition of every scheme, every sequence of seeks and reads, and however many partitions "
    "are read in turn; it ends where the partition ends.",
    ["inputs", "histories"],
    "all partitions of generated MBR (primary and logical), GPT, Apple and BSD disks, offsets beyond 4 GiB included, all "
    "read histories of up to 8 operations, interleaved over several partitions",
    "Tests read a few hundred bytes from the start of four BSD partitions.",
    ["disk/partition.py", "disk/disk.py"],
    [("stream construction", "disk/partition.py Partition.open")],
    ["Partition.open(): read/seek/tell/readinto"],
    PBT + "position-coded disks and generated read histories against the disk's own bytes",
    TRUST,
)
# ---------------------------------------------------------------------------------------------------------- raid
prop(
    "C09",
    "RAID0 volumes deliver the striped data for equal and unequal members",
    "A RAID0 volume reads back as the chunks of its members in turn; when members differ in size the volume continues "
    "with further zones striped over the members that still have room, each zone starting on its members where the "
    "previous ones ended (in the original layout, chunks are counted from the start of the volume, not of the zone). "
    "This holds for any chunk size, member count, member order in the input, data offset and read history.",
    ["inputs", "configurations", "histories"],
    "all sets of 1..6 members, chunk sizes 512..4 MiB including non powers of two, equal or unequal sizes (also sizes "
    "that are no chunk multiple, that only differ below a chunk, and more than two zones), both layouts, data offsets, read histories",
    "One array with two zones is read once from start to end (not available here).",
    ["raid/raid.py", "raid/stream.py"],
    [("strip zones", "raid/stream.py RAID0Stream")],
    ["VirtualDisk(level 0).open(): read/seek"],
    PBT + "forward layout model writes position-coded data to members, reads must give it back",
    TRUST + "The layout model follows the Linux md driver (create_strip_zones/map_sector).",
)
prop(
    "C10",
    "RAID4/5/6 volumes deliver the data for every parity layout",
    "A RAID4, RAID5 or RAID6 volume with all its members reads back exactly the data written to it for each of the "
    "supported parity layouts, whatever the number of members, chunk size, data offset and read history. "
    "A RAID5 or RAID6 volume with a layout that is none of those of its level cannot be read.",
    ["inputs", "configurations", "histories"],
    "level 4, the 6 RAID5 layouts and the 14 RAID6 layouts, 3..9 members, chunk sizes 512..4 MiB, rows up to the 2^32nd, "
    "reads crossing any number of chunks",
    "One array per level with a single layout, read sequentially in 4 KiB pieces (not available here); 17 of the 21 "
    "layouts have no test.",
    ["raid/stream.py", "raid/raid.py"],
    [("stripe computation", "raid/stream.py RAID456Stream")],
    ["VirtualDisk(level 4/5/6).open(): read/seek"],
    PBT + "forward layout model (placement table derived from the layout definitions), reads must give the data back",
    TRUST,
)
prop(
    "C11",
    "RAID10 volumes deliver the data for near, far and offset layouts",
    "A RAID10 volume with all its members reads back exactly the data written to it for any number of near copies, far "
    "copies and the offset variant, with any member count (also one that the copies do not divide), chunk size, data "
    "offset and read history. A volume that states an unknown way of forming sets of far copies cannot be read.",
    ["inputs", "configurations", "histories"],
    "near 1..4 x far 1..3 x offset on/off x far-set variants, 2..8 members, chunk sizes 512..4 MiB, rows up to the 2^32nd, any read history",
    "One near-2 array is read sequentially (not available here).",
    ["raid/stream.py"],
    [("chunk placement", "raid/stream.py RAID10Stream")],
    ["VirtualDisk(level 10).open(): read/seek"],
    PBT + "forward layout model placing every copy, reads must give the data back",
    TRUST,
)
prop(
    "C12",
    "Linear volumes concatenate members; mirrors read any member",
    "A linear volume reads as its members' data areas one after the other in member order, whatever their sizes and the "
    "order they were supplied in. "
    "A mirror with at least one member reads as the data area of a member, beginning at that member's data offset.",
    ["inputs", "configurations", "histories"],
    "1..6 members of any size and data offset, any subset of mirror members present, any read history",
    "One linear and one mirror array, sequential reads (not available here).",
    ["raid/raid.py", "raid/stream.py"],
    [("concatenation", "raid/stream.py LinearStream"), ("mirror selection", "raid/raid.py VirtualDisk.open")],
    ["VirtualDisk(level -1 / 1).open(): read/seek"],
    PBT + "position-coded members, reads compared with the concatenation / the mirrored data",
    TRUST,
)
prop(
    "C13",
    "Incomplete arrays give the right data or an error, never wrong data",
    "When members are missing, a linear or RAID0 volume is refused with a RAIDError, a RAID4/5/6 volume with more "
    "members missing than its level tolerates is refused with a RAIDError, and every read of a volume that does open "
    "either returns the right bytes or raises an error. "
    "A RAID4/5/6 volume within that tolerance opens, and the chunks on the members that are present can be read.",
    ["configurations", "fault_sequences", "histories"],
    "every subset of missing members of every level, layout and member count, also as members of MD arrays, DDF groups and "
    "Vinum systems (there also subdisks that are down)",
    "No test leaves out a member except one mirror.",
    ["raid/stream.py", "raid/raid.py"],
    [("member count checks", "raid/stream.py")],
    ["VirtualDisk.open() and read() with members left out of the member map"],
    PBT + "generated arrays with generated sets of missing members; error-or-correct oracle",
    TRUST,
)
# ---------------------------------------------------------------------------------------------------------- md
prop(
    "C14",
    "MD superblocks are found and decoded for every metadata version",
    "For each Linux MD metadata version (0.90, 1.0, 1.1, 1.2) the superblock is found at the place that version puts it "
    "for any device size, and array UUID, name, level, layout, chunk size, member count, event count, member role, data "
    "area and the creation and update times are those stored in it. "
    "A device without a superblock is refused.",
    ["inputs", "configurations"],
    "all device sizes (sector granular), versions, levels, names (any bytes), roles, times with microseconds, data "
    "offsets and sizes",
    "A handful of fixed devices of two versions (not available here); sizes that are no multiple of 4 KiB, version 1.0 "
    "and update times are never tested.",
    ["md/md.py", "md/c_md.py"],
    [("superblock search", "md/md.py find_super_block"), ("decoding", "md/md.py MDPhysicalDisk")],
    ["MD(fh).configurations[].physical_disks[], virtual_disks[]: uuid, name, level, layout, stripe_size, num_disks"],
    PBT + "generated superblocks from an independent encoder, field-by-field comparison",
    TRUST,
)
prop(
    "C15",
    "MD arrays assemble the same from any order and mix of devices",
    "Given member devices of any number of arrays in any order, there is exactly one volume per array UUID, holding each "
    "active member in the role its superblock gives it. "
    "Spares, faulty and journal devices never occupy a data role and never prevent assembly, and the volume's "
    "attributes come from the member with the highest event count; of devices that claim the same role the one with the "
    "highest count takes it (and not one still being rebuilt in its place), and a mirror is read from such a member.",
    ["configurations", "histories"],
    "1..3 arrays with 1..6 members, spares, faulty and journal devices, all input permutations, diverging event counts, "
    "replaced devices that still claim a role, devices being rebuilt",
    "Tests pass the complete members of one array in order; spares, journals, several arrays never occur.",
    ["md/md.py"],
    [("grouping and reference member", "md/md.py MD, MDConfiguration, MDVirtualDisk")],
    ["MD([...]).configurations, virtual_disks[].disk_map, content"],
    PBT + "generated device sets, comparison with the model and across permutations (metamorphic)",
    TRUST + "Whether data of a stale member of a parity array may be used is not judged.",
)
prop(
    "C16",
    "MD volumes read back the data written to the array",
    "A volume assembled from all its MD devices has the size the kernel gives it and reads back exactly the data written "
    "to the array, for every level, metadata version, layout, chunk size and data offset. "
    "Members of a linear array count up to a multiple of its chunk size, if it has one.",
    ["inputs", "configurations", "histories"],
    "levels linear,0,1,4,5,6,10 x versions 0.90..1.2 x layouts x chunk sizes up to 32 MiB x sizes x read histories",
    "One array per level read sequentially (not available here).",
    ["md/md.py", "raid/raid.py", "raid/stream.py"],
    [("volume size", "md/md.py MDVirtualDisk"), ("streams", "raid/stream.py")],
    ["MD([...]).configurations[0].virtual_disks[0].open(), .size"],
    PBT + "end to end: encoder writes devices, forward layout model writes data, reads must give it back",
    TRUST + "Known findings: the size of RAID4/5/6 volumes and of 0.90 volumes (pinned by the project's tests); the "
    "right size or exactly the known one is accepted.",
)
# ---------------------------------------------------------------------------------------------------------- ddf
prop(
    "C17",
    "DDF metadata is decoded into the right volumes and members",
    "Given the member disks of one or more DDF groups in any order, every configured virtual disk is listed once per "
    "group with its name, identifier, size, level, layout, strip size and member count, and each member at the position "
    "and start its configuration record states; records of other kinds, unused slots and missing disks change nothing "
    "else. "
    "Where disks carry different generations of the metadata, the newest counts. "
    "A volume whose combination of levels, qualifier and element counts is not supported is refused, not read in "
    "another order.",
    ["inputs", "configurations"],
    "1..3 groups, 1..4 virtual disks each, any order of records and disks, every supported level and qualifier, block "
    "sizes, names with and without the unicode flag, several secondary elements, unused record slots, "
    "disks with an outdated generation of the metadata",
    "Six single-volume groups made by one tool (not available here).",
    ["ddf/ddf.py", "ddf/c_ddf.py"],
    [("anchor, sections, records", "ddf/ddf.py DDFPhysicalDisk"), ("grouping", "ddf/ddf.py DDFConfiguration")],
    ["DDF([...]).configurations[].virtual_disks[]: name, uuid, size, level, layout, stripe_size, num_disks, disk_map"],
    PBT + "generated DDF metadata from an independent encoder, field-by-field comparison",
    TRUST,
)
prop(
    "C18",
    "DDF volumes read back the data written to the virtual disk",
    "A virtual disk whose members are all present reads back exactly the data written to it, for every supported RAID "
    "level and qualifier, strip size, block size and start block on the members, also when several virtual disks share "
    "the same member disks.",
    ["inputs", "configurations", "histories"],
    "levels 0,1,4,5,6,1E,10 with qualifiers, start blocks zero and non-zero, two volumes on the same disks",
    "One volume per group, always starting at block 0 (not available here).",
    ["ddf/ddf.py", "raid/raid.py", "raid/stream.py"],
    [("start blocks", "ddf/ddf.py DDFConfiguration"), ("streams", "raid/stream.py")],
    ["virtual_disks[].open(): read/seek"],
    PBT + "end to end: encoder plus forward layout model, reads must give the data back",
    TRUST + "RAID1E offset follows the layout the code documents; concatenation with a start block is not claimed.",
)
# ---------------------------------------------------------------------------------------------------------- dm
prop(
    "C19",
    "Thin devices read mapped blocks from the pool and zeros elsewhere",
    "Reading a thin device delivers, for every byte, the byte of the pool's data device that the device's mapping "
    "assigns to it, and zero where nothing is mapped, whatever the block size, the order of mapped and unmapped blocks, "
    "sharing between devices and the read history. "
    "The stream ends at the given size, and an unknown device or metadata that is not of a pool is refused; where the "
    "handles stand when a pool is opened does not matter.",
    ["inputs", "configurations", "histories"],
    "pools of 1..4 devices with arbitrary sparse mappings (also shared blocks, block times, sizes that are no block "
    "multiple), block sizes 64 KiB..1 MiB, with and without size hint, read histories crossing holes",
    "Two fixed pools (not available here); holes are only read one at a time.",
    ["dm/thin.py", "dm/btree.py"],
    [("block resolution", "dm/thin.py ThinDevice")],
    ["ThinPool(meta, data).open(dev, size): read/seek"],
    PBT + "generated pools (two-level trees from an independent writer), reads compared with the mapping model",
    TRUST,
)
prop(
    "C20",
    "B-tree lookups find exactly the stored keys",
    "Looking up a key in a device-mapper b-tree returns the stored value when the key is present, and nothing when it "
    "is not, for trees of any shape and depth and for chains of trees addressed by several keys.",
    ["inputs", "configurations"],
    "trees of depth 1..5 with any fan-out and any 64-bit keys (also the extremes), value sizes, 1..3 levels of trees; "
    "present keys, neighbours of present keys and keys outside the range",
    "Only reached through two fixed pools with tiny trees (not available here).",
    ["dm/btree.py"],
    [("binary search and descent", "dm/btree.py BTree.lookup")],
    ["BTree(fh, root, block_size).lookup(keys)"],
    PBT + "generated trees against a dictionary",
    TRUST,
)
# ---------------------------------------------------------------------------------------------------------- lvm
prop(
    "C21",
    "LVM2 metadata text is parsed to exactly the values it contains",
    "Parsing LVM2 metadata text gives the nested sections, integers, strings and lists that the text contains, whatever "
    "its indentation, comments, blank lines, list layout over one or several lines, and special characters inside "
    "strings.",
    ["inputs"],
    "generated section trees (depth 1..5) printed with generated formatting; strings with brackets, braces, hashes, "
    "equals signs, escaped quotes",
    "Only reached through four fixed devices written by one version of the tools (not available here).",
    ["lvm/physical.py"],
    [("text parser", "lvm/physical.py parse_metadata")],
    ["parse_metadata(text)"],
    PBT + "round trip: generated tree -> generated formatting -> parse -> same tree",
    TRUST + "The language is what LVM2 writes (one statement per line); escapes are those LVM2 emits.",
)
prop(
    "C22",
    "A physical volume's label and metadata become the right volume group",
    "From devices with an LVM2 label in any of the first four sectors and a metadata area anywhere (its text may wrap "
    "around the end of the area), the volume group, its physical and logical volumes, segments, stripes, flags, "
    "tags and creation times are exactly those described by the metadata. "
    "A device without a label is refused with an LVM2Error.",
    ["inputs", "configurations"],
    "label sector 0..3, header offset, area position and size, wrapped and unwrapped text, generated volume groups with "
    "all segment types and optional fields",
    "Four fixed devices (not available here).",
    ["lvm/physical.py", "lvm/lvm2.py", "lvm/metadata.py"],
    [("label scan", "lvm/physical.py LVM2Device"), ("object model", "lvm/metadata.py")],
    ["LVM2(fh).vg and everything below it; LVM2Device(fh).id/.metadata"],
    PBT + "generated volume groups written by an independent encoder, object-by-object comparison",
    TRUST,
)
prop(
    "C23",
    "Linear and striped logical volumes read back their data",
    "A logical volume made of linear and striped segments reads back exactly the data of the extents it is made of: "
    "linear segments at their extents, striped segments interleaved in stripe-size pieces over their stripes, on any number of "
    "physical volumes and with any data area start, extent size and read history.",
    ["inputs", "configurations", "histories"],
    "1..12 segments of 1..9 stripes over 1..12 physical volumes, listed in any order, extent sizes 1 sector..32 MiB, "
    "stripe sizes, several volumes sharing devices, read histories",
    "One single-extent linear volume, first kilobytes only (not available here).",
    ["lvm/metadata.py", "lvm/physical.py"],
    [("segment mapping", "lvm/metadata.py LogicalVolume.open, StripedSegment.open")],
    ["LVM2([...]).vg.logical_volumes[name].open(): read/seek/size"],
    PBT + "forward layout model writes position-coded extents, reads must give them back",
    TRUST,
)
prop(
    "C24",
    "Mirrored and thin logical volumes read back their data",
    "A mirrored logical volume reads as one of its images, using another image when the first cannot be opened. "
    "A thin logical volume reads, through its pool's own metadata and data volumes, its mapped blocks and zeros "
    "elsewhere (or what its external origin has there), with the size its segment states. "
    "Volumes some of whose extents are being moved between devices read as before.",
    ["inputs", "configurations", "histories"],
    "2..3 images with any subset unavailable; 1..3 thin volumes per pool with arbitrary mappings, on longer and shorter "
    "origins; pool volumes striped or split over devices; stripes on a volume being moved",
    "One mirror and one pool, sequential reads (not available here).",
    ["lvm/metadata.py", "dm/thin.py"],
    [("mirror choice", "lvm/metadata.py MirrorSegment"), ("thin pool", "lvm/metadata.py ThinSegment, ThinPoolSegment")],
    ["LVM2([...]).vg.logical_volumes[name].open()"],
    PBT + "forward layout model through both layers, reads must give the data back",
    TRUST,
)
prop(
    "C25",
    "Volume groups assemble from any device order; missing devices are errors",
    "The volume group does not depend on the order of the devices: the newest metadata (highest sequence number) on any "
    "device counts, and devices without a metadata copy still contribute their data. "
    "Opening a logical volume that needs a missing physical volume raises an LVM2Error, while volumes that do not need "
    "it stay readable; a device that is no physical volume, or devices without any metadata in use, raise an LVM2Error.",
    ["configurations", "fault_sequences", "histories"],
    "1..4 devices, all permutations, any subset without metadata copy, with stale or ignored copies, or missing",
    "All tests pass complete sets in order, each device with the same copy.",
    ["lvm/lvm2.py", "lvm/physical.py", "lvm/metadata.py"],
    [("metadata choice", "lvm/lvm2.py LVM2"), ("device attachment", "lvm/metadata.py VolumeGroup.attach")],
    ["LVM2([...]).vg, lv.open()"],
    PBT + "generated device sets and permutations, comparison with the model (metamorphic)",
    TRUST,
)
# ---------------------------------------------------------------------------------------------------------- vinum
prop(
    "C26",
    "Vinum configuration text is parsed as the kernel parses it",
    "Parsing a Vinum configuration gives, in order, the volumes, plexes and subdisks of its lines with names, states, "
    "organisation, sizes (with unit suffixes), offsets and relations as written. "
    "Blank lines and comments are skipped, an unknown state or organisation gets its default, and the first line with "
    "an unknown type or key, a missing value, an invalid size or a quoted token ends the configuration.",
    ["inputs"],
    "generated configurations with generated whitespace, comments, key order, unit suffixes, repeated keys, invalid "
    "lines at any position",
    "About 60 hand-written one-line examples; no combinations of lines, keys, whitespace and errors.",
    ["vinum/config.py"],
    [("tokenizer and line parsers", "vinum/config.py parse_vinum_config")],
    ["parse_vinum_config(time, bytes)"],
    PBT + "differential: generated configurations against an independent reference parser",
    TRUST,
)
prop(
    "C27",
    "Vinum volumes are built from the newest usable configuration",
    "For every volume, plex and subdisk the description with the newest drive time counts, whatever the order of the "
    "drives; inactive drives contribute neither configuration nor data. "
    "Plexes that are down, of unknown organisation or without volume, and subdisks that are down, degraded, "
    "initialising or without drive, are left out of the volume's members without shifting the others.",
    ["configurations", "histories", "fault_sequences"],
    "1..6 drives with diverging configurations and times, every state of volumes, plexes, subdisks and drives, all "
    "permutations",
    "Five fixed sets in which everything is up and identical (not available here).",
    ["vinum/vinum.py"],
    [("merge and selection", "vinum/vinum.py VinumConfiguration")],
    ["Vinum([...]).configurations[0].virtual_disks[]: name, uuid, level, size, num_disks, disk_map"],
    PBT + "generated drives, comparison with a model of the selection and across permutations",
    TRUST,
)
prop(
    "C28",
    "Vinum volumes read back the data written to them",
    "A concatenated, striped, RAID5 or mirrored Vinum volume reads back exactly the data written to it, with every "
    "subdisk read at its own place on its drive, also when several subdisks share a drive.",
    ["inputs", "configurations", "histories"],
    "all organisations with 1..6 subdisks, stripe sizes, several subdisks and volumes per drive (up to 2^32 sectors apart), subdisk lengths, "
    "mirrors of 2..3 plexes, read histories",
    "One 256-byte read per set, always with one subdisk per drive (not available here).",
    ["vinum/vinum.py", "raid/raid.py", "raid/stream.py"],
    [("subdisk to member map", "vinum/vinum.py VinumConfiguration, VinumPlexDisk")],
    ["Vinum([...]).configurations[0].virtual_disks[].open(): read/seek"],
    PBT + "end to end: encoder plus forward layout model, reads must give the data back",
    TRUST,
)
# ---------------------------------------------------------------------------------------------------------- vss
prop(
    "C29",
    "A shadow copy reads as the volume was when it was taken",
    "Reading a shadow copy store delivers for every block the copy this store saved, else what the next newer store and "
    "at last the current volume have for it or for the block it is forwarded to, with saved 512-byte sectors of overlay "
    "descriptors laid over it. "
    "Unused descriptors change nothing, unsaved blocks that all bitmaps of the newest store leave out and no block is "
    "forwarded to read as zeros in that store, and the stream is as long as the volume was.",
    ["inputs", "histories", "configurations"],
    "volumes with 1..4 stores, any set of copied blocks per store, overlays with any sector mask, several list blocks, "
    "any read history",
    "There is no test for shadow copies.",
    ["vss.py"],
    [("block resolution", "vss.py Store.read_block, BlockMap")],
    ["VSS(fh).catalog.stores[].open(): read/seek"],
    PBT + "a write history is simulated (copy on write), every snapshot must read as it was",
    TRUST + "Forwarders are judged only as the code documents them; never-allocated blocks are covered as zeros in the "
    "newest store only.",
)
prop(
    "C30",
    "The shadow copy catalog is decoded completely and in order",
    "All stores of a catalog that spans any number of chained blocks are listed, ordered by creation time, with their "
    "identifiers, volume size, copy and copy-set GUIDs, attributes, machine names and block ranges as stored, whatever "
    "the order and interleaving of the entries, up to the entry that ends the catalog. "
    "A volume without a valid header or catalog, or a list of a store with a record of another kind, is refused.",
    ["inputs", "configurations"],
    "catalogs of 1..3 chained blocks with 0..140 stores in any entry order, names of any length",
    "There is no test for shadow copies.",
    ["vss.py"],
    [("catalog walk", "vss.py Catalog, read_block")],
    ["VSS(fh).catalog.stores[], VSS.volume_identifier, VSS.store_volume_identifier"],
    PBT + "generated catalogs from an independent encoder",
    TRUST,
)
# ---------------------------------------------------------------------------------------------------------- cross
prop(
    "C31",
    "What a read returns does not depend on the reads before it",
    "On every kind of volume the bytes returned for a position and length are the same whatever was read, sought or "
    "peeked before, equal to that part of the volume read at once from the start, never more than asked for, and reading "
    "moves the position by what was returned.",
    ["histories", "inputs"],
    "all sequences of up to 25 operations (seek of each kind, read, readinto, read to end) on partition, RAID0, RAID5/6, "
    "RAID10, linear, mirror, thin, logical volume, Vinum and shadow copy streams",
    "Tests read forward in equal steps; nothing seeks back, reads odd lengths or past the end.",
    ["raid/stream.py", "dm/thin.py", "vss.py", "lvm/metadata.py", "disk/partition.py"],
    [("aligned reads", "raid/stream.py _read implementations"), ("aligned reads", "dm/thin.py"), ("aligned reads", "vss.py")],
    ["open() streams of every kind"],
    PBT + "stateful read histories, metamorphic oracle (slices of one whole read)",
    TRUST,
)
prop(
    "C32",
    "Streams over the same devices do not disturb each other",
    "Any number of streams opened on the same disks, arrays or volume groups can be used alternately, and the underlying "
    "handles can be moved in between, without any stream returning other bytes than it would alone; opening twice gives "
    "equal streams.",
    ["histories", "schedules"],
    "interleavings of up to 30 operations over 2..4 streams and the raw handles, for every kind of volume",
    "No test uses two streams at once.",
    ["raid/stream.py", "dm/thin.py", "vss.py", "lvm/metadata.py", "disk/partition.py"],
    [("seek before every read", "raid/stream.py, dm/thin.py, vss.py")],
    ["several open() streams over shared handles"],
    PBT + "generated interleavings, each stream judged against its own content",
    TRUST,
)
prop(
    "C33",
    "Self-referencing metadata ends in an error, not in an endless loop",
    "Metadata that refers back to itself - a boot record chain, a chained list block, a tree node, a logical volume "
    "built on itself - ends in an exception after a bounded number of reads; it never hangs. "
    "The same goes for a tree node that is of no known kind.",
    ["inputs", "fault_sequences"],
    "cycles of length 1..4 entered after 0..5 proper elements in each kind of linked metadata",
    "No test contains a cycle.",
    ["disk/schemes/mbr.py", "vss.py", "dm/btree.py", "lvm/metadata.py"],
    [("chain walks", "disk/schemes/mbr.py, vss.py read_block, dm/btree.py")],
    ["Disk(fh), VSS(fh), ThinPool(...).open(), lv.open() on cyclic metadata, counting device reads"],
    PBT + "generated cyclic metadata with a read budget",
    TRUST + "A run is taken as endless when it exceeds 20000 device reads.",
)
prop(
    "C34",
    "Records of DDF metadata are decoded as stored",
    "Every disk with DDF metadata lists the records of all disks and volumes of its group and its own configuration "
    "records completely, in the order they are stored, with the identifiers, states, sizes, positions and times of each, "
    "times being counted from the start of 1980. "
    "Unused and foreign records are skipped. "
    "A section that does not carry its signature is refused with the error of the DDF format.",
    ["inputs", "configurations"],
    "groups of 1..8 disks with 1..3 volumes, any value of each field, gaps and foreign records in between, sector size 512 "
    "or 4096",
    "The single DDF test looks at the volume, not at the records behind it.",
    ["ddf/ddf.py"],
    [("record tables", "ddf/ddf.py DDFPhysicalDisk and the record classes")],
    ["DDF(fhs).configurations[].physical_disks[] records"],
    PBT + "generated groups from an independent encoder, compared field by field; signatures damaged one byte at a time",
    TRUST,
)
prop(
    "C35",
    "A member device opens as its own data area",
    "Opening a member of an MD array or DDF group gives exactly the part of the device its metadata sets aside for data; "
    "opening a Vinum drive or an LVM physical volume gives the bytes from the start of its data area on. "
    "A Vinum drive carries the identity, activity, time and both configurations of its header; a drive without a valid "
    "header is refused.",
    ["inputs", "histories", "configurations"],
    "members of generated arrays of every metadata version, drives and physical volumes, any read history on the member",
    "Tests open arrays only, never a single member.",
    ["md/md.py", "ddf/ddf.py", "vinum/vinum.py", "lvm/physical.py"],
    [("data area of a member", "md/md.py, ddf/ddf.py, vinum/vinum.py, lvm/physical.py open()")],
    ["open() of the physical disks of MD, DDF, Vinum and LVM"],
    PBT + "generated members, reads compared with the device at the stated place",
    TRUST + "The lengths of Vinum drive and LVM physical volume streams are not judged.",
)
prop(
    "C36",
    "Damaged metadata ends in a result or an error in bounded time",
    "Whatever bytes of the metadata of a small disk, array member, pool, volume group, drive or shadow-copied volume are "
    "overwritten, flipped, copied, zeroed or cut off, opening it, listing its volumes and reading from them ends after a "
    "bounded amount of work, either with a result or with an ordinary exception. "
    "The work is bounded by the size of the devices, not by numbers found in the metadata.",
    ["inputs", "fault_sequences"],
    "1..3 damages of nine kinds (or up to five fields of each of three structures) to any metadata of devices of at most "
    "16 MiB (array members 64 MiB) of every kind of volume",
    "No test has damaged metadata.",
    ["disk/schemes/gpt.py", "disk/schemes/bsd.py", "md/md.py", "ddf/ddf.py", "dm/btree.py", "lvm/physical.py", "vinum/config.py", "vss.py"],
    [("counts and sizes taken from metadata", "disk/schemes, md/md.py, ddf/ddf.py, lvm/physical.py, vss.py")],
    ["Disk, MD, DDF, ThinPool, LVM2, Vinum, VSS on damaged devices, counting reads and processor time"],
    "structure-aware fuzzing: valid metadata from independent encoders, damaged blindly and field by field, with a read "
    "budget and a processor time limit",
    TRUST + "A run is taken as endless when it exceeds 500000 device reads or 20 seconds of processor time.",
)


def claimed():
    return sorted(p["id"] for p in PROPS if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    have = claimed()
    manifest = {
        "version": 1,
        "setup_cmd": "python3-vt -c 'import vlib.core, vlib.hist'",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./run.sh {p['id']}",
                "thorough_cmd": f"env VERIF_TIER=thorough ./run.sh {p['id']}",
                "technique": p["_technique"],
                "level": "exploration",
                "level_note": p["_note"],
                "evidence_file": f"evidence/{p['id']}.json",
            }
            for p in PROPS
            if p["id"] in have
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in have
        ],
        "notes": "Everything runs with python3-vt (hypothesis) importing /repo directly; no build step, no hooks.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")
    print(len(PROPS), "properties,", len(have), "claimed")


if __name__ == "__main__":
    main()
