#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("P01", "Extent-mapped files read back exactly their logical bytes",
 "Reading a regular file that is stored as an extent tree returns exactly the file's size in bytes: for every logical offset the byte of the physical block an initialized extent maps there to, and zero where no extent maps it or the extent is marked unwritten. This holds for every valid tree shape (inline, or up to five levels of nodes), every extent length the format allows, physical blocks beyond 2^32, and every file size including ones ending inside a block or in a trailing hole.",
 ["inputs", "configurations"], "every valid extent tree (layout of mapped, hole and unwritten runs x partition into nodes x depth) x file size x block size x checksum setting",
 "Tests read a handful of files from one mke2fs image with trees of depth 0 and 1; unwritten extents, depth>=2, 48-bit blocks and most hole/size combinations are never sampled.",
 ["src/iters/extents.rs", "src/iters/file_blocks/extents_blocks.rs", "src/extent.rs", "src/file.rs", "src/lib.rs"],
 [("Extents iterator walks the tree with an explicit stack", "src/iters/extents.rs"), ("block iterator fills holes between extents", "src/iters/file_blocks/extents_blocks.rs")],
 ["Ext4::read", "File::read_bytes", "File::seek_to"])

prop("P02", "Block-mapped (ext2/ext3) files read back exactly their logical bytes",
 "Reading a regular file stored with direct, single-, double- and triple-indirect block pointers returns exactly the file's size in bytes, each logical block coming from the block its pointer names. A zero pointer at any level (a data pointer or a whole indirect subtree) is a hole and reads as zeros.",
 ["inputs", "configurations"], "every placement of data and holes over the boundary blocks of each indirection level x null pointer at each level x file size x block size",
 "Tests read two small ext2 files; holes in indirect levels and triple-indirect boundaries are never sampled.",
 ["src/iters/file_blocks/block_map.rs", "src/iters/file_blocks.rs", "src/file.rs"],
 [("level-by-level iterator over the i_block pointers", "src/iters/file_blocks/block_map.rs")],
 ["Ext4::read", "File::read_bytes", "File::seek_to"])

prop("P03", "An open file behaves as a byte cursor over its contents",
 "After any sequence of reads and seeks on an open file, a read returns the file's bytes starting at the cursor (never past the end, and nothing only at or beyond the end or for an empty buffer) and moves the cursor by the number of bytes returned. Seeks set the cursor to the requested position, also beyond the end, in bounded time; relative seeks to before the start fail and leave the cursor alone, and the standard Read and Seek traits and the metadata size agree with this.",
 ["histories", "inputs"], "every sequence of read and seek operations up to a depth, over every file layout class",
 "Tests run a few fixed read/seek sequences on one file; the state carried between reads and seeks is only exercised along those paths.",
 ["src/file.rs", "src/iters/file_blocks.rs"],
 [("position plus cached current block and block iterator", "src/file.rs")],
 ["File::read_bytes", "File::position", "File::seek_to", "std::io::Read", "std::io::Seek", "File::metadata"])

prop("P04", "Directory listing yields exactly the live entries",
 "Listing a directory yields every in-use entry exactly once - including '.' and '..' - with its exact name bytes, a path made of the queried path joined with that name, its recorded type and the metadata of the inode it names; unused entries, slack space, checksum tails and hash-index nodes never show up. This holds for linear and hash-indexed directories of any number of blocks and any block size.",
 ["inputs", "configurations"], "every sequence of live and unused entries, record-length slack and name lengths up to the bound x block boundaries x block sizes x index/checksum settings",
 "Tests list two directories made by mke2fs, whose entries are all live and tightly packed by the same writer.",
 ["src/iters/read_dir.rs", "src/dir_entry.rs", "src/dir_block.rs", "src/file_type.rs"],
 [("ReadDir iterator, block by block", "src/iters/read_dir.rs"), ("record decoding", "src/dir_entry.rs")],
 ["Ext4::read_dir", "DirEntry::{file_name,path,file_type,metadata}"])

prop("P05", "Name lookup agrees with the directory listing",
 "Looking up a name in a directory finds the inode the listing shows for that name, and reports not-found exactly for names that the listing does not show. This holds for linear and hash-indexed directories, for every supported hash algorithm, hash seed and hash signedness, every index depth, every arrangement of names over leaf blocks (hash collisions spanning leaves included) and every valid name byte string.",
 ["inputs", "configurations"], "every set of names x distribution over leaf blocks x index depth x hash algorithm/seed/signedness x queried name",
 "Tests look up names in two mke2fs directories of ASCII names; collisions across leaves, deep indexes, empty leaves and non-ASCII hashing are not sampled.",
 ["src/dir.rs", "src/dir_htree.rs", "src/dir_entry_hash.rs", "src/dir_entry.rs"],
 [("hash tree descent and binary search", "src/dir_htree.rs"), ("directory hash functions", "src/dir_entry_hash.rs"), ("linear scan fallback", "src/dir.rs")],
 ["Ext4::exists", "Ext4::metadata", "Ext4::symlink_metadata", "Ext4::read_dir"])

prop("P06", "Path resolution and canonicalization follow Linux path resolution",
 "Every path operation resolves an absolute path component by component as Linux does: repeated and trailing slashes, '.', '..' (stopping at the root), relative and absolute symlinks in any position, not following a final symlink for lstat-like operations, at most 40 symlinks, and a length limit of 4096 bytes, with NotAbsolute / NotFound / NotADirectory / TooManySymlinks / PathTooLong for the corresponding failures. Canonicalizing returns the absolute path without '.', '..', duplicate or trailing separators or symlinks which resolves to the same file, is a fixed point, and resolution never panics, however many components the path has.",
 ["inputs", "configurations"], "every path up to a number of components over an alphabet of names, dots and slashes x every small tree of directories, files and symlinks with every symlink target up to a bound",
 "Tests resolve about thirty hand-picked paths on one tree; combinations of symlinks, dots, slashes and limits are unbounded.",
 ["src/resolve.rs", "src/lib.rs", "src/dir.rs"],
 [("left-to-right splice-based resolver", "src/resolve.rs")],
 ["Ext4::canonicalize", "Ext4::metadata", "Ext4::symlink_metadata", "Ext4::exists", "Ext4::open", "Ext4::read", "Ext4::read_link", "Ext4::read_dir"])

prop("P07", "Each operation accepts exactly its targets and reports the documented error",
 "For every operation and every kind of target (regular file, directory, symlink, FIFO, character and block device, socket, encrypted directory or file, missing, malformed or relative path) the operation succeeds or fails with exactly its documented error: reading or opening a directory is IsADirectory and a special file IsASpecialFile, listing a non-directory is NotADirectory, reading the link of a non-symlink is NotASymlink, encrypted content is Encrypted and never returned as if it were plaintext, and text that is not UTF-8 is NotUtf8. Converting an error to the standard I/O error keeps its documented kind, and an error of the underlying reader stays reachable.",
 ["inputs", "configurations"], "every operation x target kind x path form (direct, via symlink, trailing slash, relative, malformed) x error variant",
 "Tests cover one sample per error for some operations; the operation x target matrix, special files reached through symlinks and encrypted files are not covered.",
 ["src/lib.rs", "src/file.rs", "src/inode.rs", "src/iters/read_dir.rs", "src/error.rs"],
 [("type checks at each public entry point", "src/lib.rs"), ("error mapping", "src/error.rs")],
 ["all Ext4 methods", "From<Ext4Error> for std::io::Error"])

prop("P08", "Metadata reports exactly the stored inode attributes",
 "For every inode the reported file type, permission bits (including setuid, setgid and sticky), 32-bit owner and group ids and 64-bit size are exactly those stored in the inode, whichever way the metadata is obtained (by path, through a directory entry, from an open file, via a symlink or not). The type predicates agree with the file type, and the directory entry's recorded type is reported for the entry itself.",
 ["inputs", "configurations"], "every mode value (2^16) and every boundary value of ids and size x inode size x checksum setting x access route",
 "Tests check one or two files' mode, uid, gid and size.",
 ["src/metadata.rs", "src/inode.rs", "src/file_type.rs", "src/dir_entry.rs"],
 [("inode field decoding", "src/inode.rs"), ("mode to type", "src/file_type.rs")],
 ["Ext4::metadata", "Ext4::symlink_metadata", "DirEntry::{metadata,file_type}", "File::metadata", "Metadata accessors", "FileType predicates"])

prop("P09", "Journal replay shows exactly the committed transactions",
 "Loading a filesystem that needs recovery presents, for every block, the contents after replaying the valid committed transactions of the journal in sequence order and nothing of later, uncommitted, torn or stale ones: later transactions override earlier ones, a block revoked at or after its last logging keeps its on-disk contents, and the log may wrap around the end of the journal. A journal in a format the library does not support (including one with an escaped block) is refused with an Incompatible error rather than presented wrongly. The media itself is never written, and a filesystem not marked as needing recovery (or an empty log) ignores the journal contents.",
 ["crash_points", "histories", "configurations"], "every history of up to a few transactions over a few blocks (logging, revoking, escaping) x every start position in the log (wrap included) x every crash point, torn or stale journal block",
 "Tests load one journaled image; crash points, revokes across transactions, wrap-around and stale log tails are never sampled.",
 ["src/journal.rs", "src/journal/block_map.rs", "src/journal/descriptor_block.rs", "src/journal/revocation_block.rs", "src/journal/commit_block.rs", "src/journal/superblock.rs"],
 [("single pass over the log, committing a pending block map at each commit block", "src/journal/block_map.rs")],
 ["Ext4::load", "Ext4::read", "Ext4::read_dir"])

prop("P10", "No checksummed structure with a wrong checksum is ever accepted",
 "On a filesystem with metadata checksums, whenever an operation depends on a checksummed structure - superblock, group descriptor, inode, extent-tree block, directory leaf, directory index block, or journal superblock, descriptor, data, revoke or commit block - whose stored checksum does not match its contents, that operation fails (journal blocks: the damaged transaction is not applied) instead of returning results. Structures whose checksum is correct are accepted, with or without a stored checksum seed and for every structure size.",
 ["fault_sequences", "inputs"], "every single-bit flip of every byte covered by a checksum, in every checksummed structure kind x seed and size configurations",
 "Tests flip one field of some structures; a check that skips part of a structure, or a structure kind in one code path, is invisible to them.",
 ["src/checksum.rs", "src/superblock.rs", "src/block_group.rs", "src/inode.rs", "src/iters/extents.rs", "src/dir_block.rs", "src/journal"],
 [("crc32c over each structure seeded by uuid/seed, inode and generation", "src/checksum.rs and callers")],
 ["Ext4::load", "every path operation", "Ext4::read", "Ext4::read_dir"])

prop("P11", "No input image makes the library panic, hang or exhaust memory",
 "For any image contents - truncated, corrupted or adversarial - loading and every operation terminate with a result or an error: no panic, no arithmetic overflow, no unbounded loop or recursion, and no memory use out of proportion to the operation's result and the filesystem's block size. This includes images whose checksums are all consistent.",
 ["inputs", "fault_sequences"], "every boundary value in every metadata field, every byte value in every metadata byte, every truncation, and pairs of field corruptions, on several images x full API walk",
 "Tests try a dozen malformed inputs; fuzzing elsewhere samples. The space of corrupt images is combinatorial.",
 ["src/superblock.rs", "src/block_group.rs", "src/inode.rs", "src/iters", "src/dir_block.rs", "src/dir_htree.rs", "src/journal", "src/lib.rs"],
 [("checked arithmetic and bounds checks throughout", "src/**")],
 ["all public operations"])

prop("P12", "Reader I/O errors surface as errors and never corrupt later results",
 "If the underlying reader fails during any operation, that operation either reports the reader's own error or returns the correct result; it never panics and never returns wrong or truncated data. Once the reader works again, the same operation on the same filesystem object - and the next read on the same open file or directory listing opened afresh - returns the correct result.",
 ["fault_sequences"], "every placement of one or two reader failures (single, repeated, persistent) over the read calls of every operation",
 "The test reader never fails in the middle of an operation.",
 ["src/lib.rs", "src/block_cache.rs", "src/file.rs", "src/iters/read_dir.rs"],
 [("block cache filled only after a successful read", "src/block_cache.rs"), ("error propagation by ?", "src/**")],
 ["all public operations", "Ext4Read::read"])

prop("P13", "Results do not depend on access history, and reads stay inside the device",
 "Every operation's result is a function of the image alone: whatever operations preceded it on the same filesystem object, in whatever order and whether or not blocks were cached or evicted, it returns what a freshly loaded filesystem returns. The library asks its reader only for ranges that lie inside the filesystem.",
 ["histories", "configurations"], "every sequence of operations up to a depth over files, directories and blocks placed to collide in the cache, at the end of the device and across read-ahead windows",
 "Tests use the cache along a few sequences; eviction, read-ahead at the end of the device and order effects are unbounded.",
 ["src/block_cache.rs", "src/lib.rs"],
 [("LRU block cache with read-ahead", "src/block_cache.rs")],
 ["all public operations", "Ext4Read::read"])

prop("P14", "Loading accepts exactly the supported filesystems and reports their identity",
 "Loading succeeds exactly when the superblock is a valid ext2/3/4 superblock (magic, supported block size, consistent geometry, checksum when required) whose incompatible feature set contains directory-entry file types and otherwise only features the library supports; any other or unknown incompatible feature yields an Incompatible error, a broken superblock a Corrupt error, and compatible or read-only-compatible features never prevent loading. The label and UUID reported are exactly the stored ones.",
 ["inputs", "configurations"], "every single and pairwise setting of the 96 feature bits, every boundary value of the superblock fields, every label and uuid byte pattern of the alphabet",
 "The superblock tests depend on data files and check a few flags.",
 ["src/superblock.rs", "src/features.rs", "src/label.rs", "src/uuid.rs", "src/block_size.rs"],
 [("feature check at load", "src/superblock.rs")],
 ["Ext4::load", "Ext4::label", "Ext4::uuid"])

prop("P15", "Path and name types obey the path algebra for every byte string",
 "For every byte string, constructing a path or entry name succeeds exactly when it satisfies the documented limits (no NUL; components, or the name, of at most 255 bytes; names non-empty and without separator), preserves the bytes, and gives consistent equality, ordering, hashing, UTF-8 conversion, lossy display and debug output. Joining and pushing insert exactly the separators needed and let absolute arguments replace, and the components of a path are exactly its root marker and its non-empty pieces in order, with '.' and '..' recognized.",
 ["inputs"], "every byte string up to a length over an alphabet of slash, dot, letters, NUL, quotes, UTF-8 and invalid bytes; every pair for join; lengths around 255",
 "Tests check some twenty literals.",
 ["src/path.rs", "src/dir_entry.rs", "src/format.rs", "src/label.rs"],
 [("validation in TryFrom, component iterator", "src/path.rs")],
 ["Path, PathBuf, Component, DirEntryName public API"])

prop("P16", "Every inode is found where the group descriptors place it",
 "For every valid geometry - block size, first data block, inode size, inodes per group, number of groups, descriptor size (32 bytes, 64 bytes and larger) and inode tables placed anywhere including beyond block 2^32 - each inode number refers to the record at its group's table, and nothing else. Inode number zero or past the last inode is reported as an error.",
 ["configurations", "inputs"], "every combination of geometry parameters in the bound x every inode number",
 "Tests use one geometry with one or two groups.",
 ["src/inode.rs", "src/block_group.rs", "src/superblock.rs"],
 [("inode index to group/table offset arithmetic", "src/inode.rs"), ("descriptor table location and stride", "src/block_group.rs")],
 ["Ext4::metadata", "Ext4::read_dir"])

prop("P17", "Symbolic link targets are returned exactly",
 "Reading a symbolic link returns exactly the target's bytes for every target length the format allows, whether it is stored inside the inode or in data blocks mapped by extents or block pointers, and following the link uses that same target. A stored target that is not a valid path (empty, containing NUL, over-long component) is reported as an error and never as another target.",
 ["inputs", "configurations"], "every target length from 0 to the maximum x storage form x block size, byte patterns of the alphabet, and invalid targets",
 "Tests read a few short links and one long link.",
 ["src/inode.rs", "src/resolve.rs"],
 [("inline vs block storage decision", "src/inode.rs")],
 ["Ext4::read_link", "Ext4::canonicalize", "Ext4::metadata"])

prop("P18", "Handles and clones do not interfere with each other",
 "Any number of open files, directory listings and filesystem clones used in any interleaving each observe exactly what they would observe alone, also when other handles to the same file are at other positions, other operations fail, or the filesystem object they came from has been dropped.",
 ["schedules", "histories"], "every interleaving of the step sequences of two or three handles (files, listings, path operations) on shared and distinct targets",
 "Tests drive one handle at a time.",
 ["src/lib.rs", "src/file.rs", "src/iters/read_dir.rs", "src/block_cache.rs"],
 [("shared Rc inner state with RefCell cache and reader", "src/lib.rs")],
 ["File", "ReadDir", "Ext4 (clone)"])

prop("P19", "The bundled readers return exactly the requested bytes or an error",
 "The in-memory and file readers fill the whole destination with the bytes at the requested offset if and only if that range lies inside the data, and otherwise return an error without panicking, for every offset up to u64::MAX and every length. A filesystem gives the same results through either of them, through a path on disk, or through any other conforming reader.",
 ["inputs"], "every data length x offset (boundary values up to u64::MAX) x read length in the bound, for each reader",
 "Tests check two or three ranges of the in-memory reader.",
 ["src/reader.rs", "src/lib.rs"],
 [("checked slicing; seek + read_exact", "src/reader.rs")],
 ["Ext4Read for Vec<u8>", "Ext4Read for std::fs::File", "Ext4::load_from_path"])

prop("P20", "Structural damage is reported as corruption, not read as something else",
 "Even where checksums are absent or agree, an operation that depends on a structure breaking the format's own rules fails with the Corrupt error and does not return what the structure seems to say. The rules: an extent node has the magic number, a depth of at most five and one below its parent's, and no more entries than fit; extents are not empty, in order and do not overlap; extent, index and indirect blocks and inode tables lie inside the filesystem; a directory record is at least eight bytes and ends within its block, and its name is not empty, within the record, free of NUL and '/', with a known type; an index node has at least one entry, not more than fit, and leads to blocks of the directory, never back to itself; inode numbers exist, modes have a known type, files have less than 2^32 blocks; a journal's log begins after its superblock, contains the start, and is no larger than the filesystem. The same structures within the rules are read correctly.",
 ["inputs"], "each rule x each place in a structure it applies to x values on both sides of the limit x block size x checksum setting",
 "Tests check some rules once, on isolated functions with hand-made bytes; most rules, places and limits are never exercised through an operation.",
 ["src/iters/extents.rs", "src/dir_entry.rs", "src/dir_htree.rs", "src/iters/read_dir.rs", "src/iters/file_blocks/block_map.rs", "src/inode.rs", "src/lib.rs", "src/journal/superblock.rs"],
 [("NodeHeader::from_bytes, Extents::next_impl", "src/iters/extents.rs"), ("DirEntry::from_bytes", "src/dir_entry.rs"), ("InternalNode::new, HtreeSearch", "src/dir_htree.rs"), ("read_from_block bounds", "src/lib.rs")],
 ["Ext4::read", "File::read_bytes", "Ext4::read_dir", "Ext4::symlink_metadata", "Ext4::load"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
