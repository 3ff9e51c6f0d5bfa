"""properties and manifest texts"""
NOTES = 'Static analysis only: every check extracts the MIR of /repo\'s current tree with a rustc driver, builds gated value graphs by abstract interpretation, and compares them with specification graphs.'
TECH = 'abstract interpretation of compiler MIR into gated value graphs, compared with a specification table'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, technique=TECH, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note, technique=technique, na=na))


P('C03', 'Version 0.90 md superblocks are decoded field by field, in either byte order',
  'For every 4096-byte version 0.90 superblock that is accepted, each reported value (versions, array id, algorithm, device size and chunk size in 512-byte sectors, device count, event count, role index, every device role) is exactly the integer at its documented offset, in the byte order selected by the magic number. Device sizes recorded in KiB and chunk sizes recorded in bytes are converted to sectors.',
  ['inputs'], 'every content of the superblock, both byte orders',
  'tests decode a handful of fixed buffers; they check the raw layout views and not the values the rest of the program uses, and cannot enumerate 2^32 values per field',
  ['src/md/superblock/version_0/superblock.rs', 'src/md/superblock/version_0/little_endian/superblock.rs', 'src/md/superblock/version_0/big_endian/superblock.rs'],
  [('superblock reader', 'src/md/superblock/version_0/superblock.rs read'), ('field accessors', 'impl Superblock for SuperblockVersion0')],
  'value graph of every accessor over symbolic disk bytes equals the offset/width/endianness/unit table taken from the kernel md_p.h; all inputs')

P('C04', 'Version 1 md superblocks are decoded field by field',
  'For every 4096-byte version 1 superblock that is accepted, each reported value (versions, array id, name, algorithm, sizes, device count, event count, data offset, role index, every device role) is exactly the little-endian integer or byte string at its documented offset. The number of roles is the recorded maximum, bounded by the size of the superblock.',
  ['inputs'], 'every content of the superblock',
  'tests decode fixed buffers only',
  ['src/md/superblock/version_1/superblock.rs'],
  [('field accessors', 'impl Superblock for SuperblockVersion1')],
  'value graph of every accessor over symbolic disk bytes equals the offset/width table taken from the kernel md_p.h; all inputs, symbolic role index')

P('C02', 'Superblock probing looks at the documented places and reports the right outcome',
  'Opening a device computes its size as block count times block size (an overflow or a failing query fails the open); devices below 12288 bytes are reported too small; otherwise superblocks are looked for at byte 4096 (1.2), 0 (1.1), 8 KiB..12 KiB before the end, 4 KiB aligned (1.0), and, from 64 KiB on, in the last 64 KiB-aligned 64 KiB block (0.90). The first valid superblock in that order is the one reported, with the minor version of its location; if none is valid the superblock is reported missing.',
  ['inputs'], 'every device size, every content of the device, every combination of failing reads',
  'tests build a few small devices by hand; they do not vary the size (alignment and underflow at the end of the device), leave stale superblocks in other places, or make reads fail',
  ['src/md/device/device.rs'],
  [('probing', 'MdDevice::from_block_device')],
  'value graph of the opened device over symbolic size, contents and read outcomes equals the probing specification; seeks and reads compared event by event')

P('C05', 'A superblock is accepted exactly when it is well formed',
  'A version 0.90 or 1 superblock read is a 4096-byte read at the current position; it is accepted if and only if the read succeeds and magic number, major version and (0.90) device role values are valid.',
  ['inputs'], 'every content of the superblock, every outcome of the read',
  'tests have one accepted buffer per version; acceptance is a statement about the whole input space (which bytes do not matter, and that every regular role value is accepted)',
  ['src/md/superblock/version_0/superblock.rs', 'src/md/superblock/version_1/superblock.rs'],
  [('readers', 'SuperblockVersion0::read, SuperblockVersion1::read'), ('validity', 'Superblock::valid')],
  'boolean diagram of acceptance over symbolic bytes equals the specified condition')

P('C06', 'Reshapes are reported exactly when recorded, from the documented fields',
  'An accepted superblock reports a reshape if and only if it records one (version 0.90: minor version at least 91; version 1: feature bit 4); the new algorithm, position, change of the number of devices and new chunk size are the integers at their documented offsets, in sectors.',
  ['inputs'], 'every content of the superblock, both versions and byte orders',
  'tests decode no superblock with an active reshape except one per version',
  ['src/md/superblock/version_0/superblock.rs', 'src/md/superblock/version_1/superblock.rs', 'src/md/superblock/reshape_status.rs'],
  [('reshape status', 'Superblock::reshape_status')],
  'value graph of reshape_status over symbolic disk bytes equals the table from md_p.h')

P('C07', 'RAID 5 data and parity lie where the Linux driver puts them',
  'For every RAID 5 layout, every sector below 2^63, every positive chunk size and every number of devices from 2, the computed sector, parity device and data device are those of raid5_compute_sector in the Linux kernel; with no data device or an empty chunk no location is reported; no input makes the computation panic.',
  ['inputs'], 'all sectors, chunk sizes (32 bit) and device counts (symbolic, and each count up to 64 separately)',
  'tests enumerate a few stripes of arrays with a few devices and one chunk size',
  ['src/md/raid5/algorithm.rs'],
  [('geometry', 'Raid5Algorithm::compute_sector')],
  'value graphs with integer division and remainder normal forms compared with the kernel formula; interval and difference reasoning prunes contradictory paths')

P('C08', 'RAID 6 data, P and Q lie where the Linux driver puts them',
  'For every RAID 6 layout, every sector below 2^63, every positive chunk size and every number of devices from 3, the computed sector, P, Q and data device are those of raid5_compute_sector in the Linux kernel; with no data device or an empty chunk no location is reported; no input makes the computation panic.',
  ['inputs'], 'all sectors, chunk sizes (32 bit) and device counts (symbolic, and each count up to 64 separately)',
  'tests enumerate a few stripes of arrays with a few devices and one chunk size',
  ['src/md/raid6/algorithm.rs'],
  [('geometry', 'Raid6Algorithm::compute_sector')],
  'value graphs with integer division and remainder normal forms compared with the kernel formula; interval and difference reasoning prunes contradictory paths')

P('C09', 'Arrays are assembled from the reconciled roles of their members',
  'The device roles of an array are reconciled position by position over the superblocks of all its devices in order; a device without superblock leaves the array without roles. Where the roles reconciled so far and the next list both have an entry, the next entry is taken if the present one is spare or faulty or the next one is invalid; otherwise the present entry is kept if it is invalid, if the next one is spare or faulty, or if the two are equal; any other difference leaves the array without roles. Entries beyond the shorter list are kept. A device is active, under the number its reconciled role at its own role index gives, when that role is a regular position (at most 0xfeff) and no other device claims the same number; every other device is inactive. Assembling never panics.',
  ['inputs'], 'all role lists and role indices of up to three devices, with and without superblocks',
  'tests assemble arrays whose superblocks agree; the outcome depends on pairs of role lists and on the devices\' own indices, which cannot be enumerated',
  ['src/md/array.rs', 'src/md/definition.rs', 'src/md/superblock/mod.rs'],
  [('assembly', 'MdArray::open'), ('reconciliation', 'MdArray::open')],
  'MdArray::open evaluated from real constructors over symbolic superblocks; active and inactive devices compared with the reconciliation table')

P('C10', 'The diagnosis lists exactly the disagreements between superblocks',
  'MdArray::diagnose looks at every device, active or not. It reports the devices that are too small and those with a missing superblock exactly when there are any. For array id, name, algorithm, size, chunk size, device count, reshape status, event count and device roles, it reports a map from value to devices exactly when two superblocks disagree; the map lists every device that has a superblock (for names: that has a name) once, under its own value. The role index map lists exactly the indices that more than one device claims, with these devices.',
  ['inputs'], 'every combination of superblock contents of up to three devices, active or inactive, with and without superblock',
  'tests diagnose a few pairs of superblocks; which fields disagree, between which devices, active or not, multiplies out of reach',
  ['src/md/array.rs', 'src/md/definition.rs', 'src/md/diagnosis/diagnosis.rs'],
  [('diagnosis', 'MdArray::diagnose'), ('diagnosis', 'MultiMap::from_multi_iter')],
  'value graph of every field of the diagnosis over symbolic superblocks compared with the specified map')

P('C11', 'Array capacity and format follow the superblocks in force',
  'The format in force is the new format of a reshape when every superblock records an equal one; otherwise the current format when all superblocks agree on it; otherwise the array has none and opening it as a block device fails. Its capacity is the number of sectors per device times the number of data devices (device count minus one for RAID 5 and minus two for RAID 6), in blocks of 512 bytes; an unsupported level, fewer devices than parity blocks, or an overflow make the query fail. Reads use the algorithm, chunk size and device count in force and refuse buffers shorter than 512 bytes.',
  ['inputs'], 'every format of up to three superblocks, with and without reshape',
  'tests never open an array as a block device with disagreeing formats or sizes near overflow',
  ['src/md/array.rs', 'src/md/format.rs', 'src/md/definition.rs'],
  [('format', 'MdFormat::from_superblock, MdArrayDefinition'), ('capacity', 'MdArray::block_count')],
  'value graphs of block_count, block_size and the arguments of the geometry over symbolic superblocks compared with the specified formula')

P('C12', 'Array reads return data only when the stripe is complete and its parity checks',
  'Reading a sector of a RAID 6 array returns data exactly when every member of the array can be duplicated, positioned and read at the byte (data offset + stripe sector) * 512 of that member, and when for each of the 512 bytes the exclusive or over all data members equals the P member. The data returned is that of the member which holds the sector, unchanged. A missing member, a RAID 5 array or an unsupported level give no data. What was read before makes no difference. No input makes a read panic.',
  ['inputs', 'histories'], 'every sector, every content of the members, every combination of missing members and failing operations, arrays of 4 to 6 members',
  'tests read no array; the outcome depends on every member\'s contents and on each operation\'s outcome',
  ['src/md/array.rs', 'src/md/raid6/algorithm.rs', 'src/md/algorithm.rs'],
  [('reads', 'impl BlockDevice for MdArray read_block'), ('stripe', 'Raid6Algorithm::read_sector')],
  'event order and value graph of a read over symbolic contents and operation outcomes compared with the specification; reports the first deviating operation')

P('C13', 'Ext4 superblock fields are decoded from their documented offsets',
  'For every ext4 superblock the program accepts, every value it reports is that of the field of struct ext4_super_block at its documented offset: little-endian integers, 64-bit counts combined from their two halves, block, cluster and flex group sizes as powers of two of the recorded exponents, times as 40-bit seconds since the epoch (optional ones absent exactly when zero), strings up to the first NUL (optional ones absent exactly when empty), enumerations by their documented numbers. The metadata checksum seed is the stored seed if the filesystem stores one, else the crc32c of its uuid if metadata is checksummed, else 0.',
  ['inputs'], 'every content of the 1024 bytes',
  'tests decode a few superblocks in which most fields are zero, so swapped halves, neighbouring offsets and wrong widths agree with them',
  ['src/ext4/superblock/superblock.rs', 'src/ext4/superblock/error_policy.rs', 'src/ext4/superblock/creator_os.rs', 'src/ext4/superblock/hash_version.rs', 'src/ext4/superblock/encryption_algorithm.rs', 'src/ext4/inode/time.rs', 'src/ext4/crc.rs'],
  [('layout', 'SuperblockRaw'), ('accessors', 'Superblock')],
  'value graph of every accessor over symbolic disk bytes compared with the layout table of the kernel')

P('C14', 'An ext4 superblock is accepted exactly when it is consistent',
  'A superblock is the 1024 bytes at the current position of its reader. It is accepted exactly when these can be read, the magic number is 0xef53, the exponents of block and cluster size are below 53 and that of the flex group size below 63, the error policy is 1, 2 or 3, blocks and clusters have the same size and number per group unless bigalloc is used, and it has either no checksum or a crc32c which equals that of its first 1020 bytes; any other is reported as an error.',
  ['inputs'], 'every content of the 1024 bytes and both outcomes of reading them',
  'tests accept a few superblocks and reject almost none; acceptance quantifies over all of them',
  ['src/ext4/superblock/superblock.rs', 'src/ext4/crc.rs'],
  [('acceptance', 'Superblock::read, Superblock::valid')],
  'boolean diagram of acceptance over symbolic bytes equals the specified condition; coverage of the checksum compared term by term')

P('C15', 'Block group descriptors are decoded from their documented offsets',
  'Every value reported for a block group is that of the field of struct ext4_group_desc at its documented offset, low and high halves combined, where bytes beyond the descriptor size of the filesystem count as zero, for descriptors of every size.',
  ['inputs'], 'every content and every size of a descriptor',
  'tests decode two 64-byte descriptors; shorter ones and nonzero high halves never occur',
  ['src/ext4/block_group/descriptor.rs', 'src/ext4/block_group/flags.rs'],
  [('layout and accessors', 'BlockGroupDescriptor')],
  'value graph of every accessor over symbolic bytes and symbolic length compared with the layout table')

P('C16', 'Inodes are decoded from their documented offsets, whatever their size',
  'Every value reported for an inode is that of the field of struct ext4_inode at its documented offset: halves of sizes, owners, versions and checksums combined, the file type from the upper four and permissions from the lower twelve bits of the mode, times as signed 32-bit seconds extended by the two low bits of the extra field with nanoseconds from its other bits. Fields beyond the first 128 bytes count as zero where the recorded extra size or the buffer does not include them. An inode has a checksum seed exactly when the filesystem checksums metadata: the crc32c of its number and generation continued from the seed of the filesystem. Decoding does not panic.',
  ['inputs'], 'every content and every size of an inode, every inode number',
  'tests decode two 256-byte inodes; negative times, epochs, high halves and truncated extra fields never occur',
  ['src/ext4/inode/inode.rs', 'src/ext4/inode/time.rs', 'src/ext4/inode/file_mode.rs', 'src/ext4/inode/file_type.rs'],
  [('layout and accessors', 'Inode')],
  'value graph of every accessor over symbolic bytes, symbolic length and symbolic extra size compared with the layout table; panics shown infeasible')

P('C17', 'Flags and file modes have the bit values of the on-disk format',
  'Every named flag of superblocks, block groups, inodes, permissions and mount options (ext4) and of features and devices (md version 1) has the bit value of the on-disk format as the Linux headers define it, and a file type and permissions combine to the mode with the type number in the upper four and the permissions in the lower twelve bits.',
  ['inputs'], 'every flag constant of the program; every file type with every 16-bit permission word',
  'tests compare printed or raw flag sets built from the same constants, so a wrong bit agrees with itself',
  ['src/ext4/superblock/incompatible_features.rs', 'src/ext4/superblock/compatible_features.rs', 'src/ext4/superblock/read_only_compatible_features.rs', 'src/ext4/inode/flags.rs', 'src/ext4/inode/permissions.rs', 'src/ext4/inode/file_mode.rs', 'src/md/superblock/version_1/features.rs'],
  [('constants', 'bitflags'), ('mode', 'FileMode::from_file_type_and_permissions')],
  'constants evaluated by the compiler compared with the table of the kernel headers')

P('C18', 'Extent trees are validated and their entries decoded correctly',
  'An inode holds an extent tree exactly when it uses extents and has no inline data. A tree is valid exactly when its magic number is 0xf30a, its entries fit the recorded maximum, that maximum fits the space (including the tail, in a block of a filesystem with metadata checksums) and, in such a block, the checksum after the last possible entry is the crc32c of everything before it continued from the seed of the inode. A tree of depth 0 is a leaf, any other a branch. Entry i of a valid tree exists exactly when i is below the number of entries; its values are those of struct ext4_extent and ext4_extent_idx: an extent recorded longer than 32768 blocks is unwritten and that much shorter. None of this panics.',
  ['inputs'], 'every content and size of a block or inode, every entry index',
  'no test looks at an extent tree; offsets of entries depend on an index, validity on a checksum over all bytes',
  ['src/ext4/extent/tree.rs', 'src/ext4/extent/extent.rs', 'src/ext4/extent/index.rs', 'src/ext4/extent/header.rs'],
  [('trees', 'ExtentTree::from_block, from_inode, valid'), ('entries', 'ExtentLeaf::extent_at, ExtentBranch::subtree_index_at')],
  'value graphs over symbolic bytes at symbolic offsets compared with the layout; validity as a boolean diagram; panics shown infeasible')

P('C19', 'Directory blocks yield exactly the entries they hold',
  'A directory block yields, in order, the entries that lie one after the other from its start: each present exactly when its 8-byte header and the record length it gives fit the rest of the block (without the checksum tail, if there is one) and header and name fit that record length. Inode number, file type (0 or above 7 reported as such) and name (as long as recorded, at most up to a NUL) are those at their offsets in struct ext4_dir_entry_2. With metadata checksums a block is accepted exactly when it ends in a tail of 12 bytes whose checksum is the crc32c of everything before it, continued from the seed; without, always. Decoding never panics. File types of directory entries and of inodes correspond.',
  ['inputs'], 'every content of a block of 12 to 65536 bytes and every seed; three entries at symbolic positions; names of up to 9 bytes with arbitrary contents',
  'tests decode one well-formed block; record lengths that do not fit, tails and checksums that do not match never occur',
  ['src/ext4/directory/block.rs', 'src/ext4/directory/dir_entry.rs', 'src/ext4/directory/dir_entry_tail.rs', 'src/ext4/directory/file_type.rs'],
  [('blocks', 'Ext4DirectoryBlock::from_block_and_checksum_seed, read_next_entry'), ('entries', 'DirEntry')],
  'value graphs over symbolic bytes at symbolic offsets compared with the layout; panics shown infeasible')

P('C20', 'Opening a filesystem reads its group descriptors and refuses unsupported ones',
  'Opening an ext4 filesystem reads the superblock at byte 1024. If that is acceptable (C14), created by Linux, uses extents, has no unknown incompatible feature and nonzero blocks per group, inodes per group and descriptor size, one group descriptor is read for each group, that is for every started blocks-per-group blocks of the block count. The descriptors follow each other from the start of the block after the first data block and are 32 bytes long or, with the 64-bit feature, as long as the superblock records. The filesystem opens exactly when all this holds and every seek and read succeeds; otherwise opening fails, and it never panics.',
  ['inputs'], 'every content of the medium and every combination of failing operations, for chosen block counts, group sizes and block sizes',
  'tests open one image, which has a single group and the usual feature flags',
  ['src/ext4/fs.rs'],
  [('open', 'Ext4Fs::open')],
  'event order and value graph of opening over symbolic contents compared with the specification, geometry enumerated (7 geometries with 0 to 3 groups)')

P('C21', 'Inodes are read from their place in the inode table of their group',
  'Opening inode n of a filesystem reads the recorded number of bytes per inode at entry (n-1) mod inodes-per-group of the inode table of group (n-1) div inodes-per-group, whose block is the one recorded in the descriptor of the group (both halves if the descriptor is long enough). Inode 0, inodes above the number of inodes and inodes of groups the filesystem does not have are refused without reading anything, and positions that exceed 64 bits are refused. Inodes opened before make no difference. The root directory is inode 2. No inode number makes the program panic.',
  ['inputs'], 'every inode number, inodes per group, table location and content, for chosen numbers of groups, block, descriptor and inode sizes',
  'tests read the root inode of one image with one group',
  ['src/ext4/fs.rs'],
  [('lookup', 'Ext4Fs::open_file, Ext4Fs::read_inode')],
  'positions of the operations as value graphs with division normal forms compared with the specification')

P('C22', 'Reading a file returns the mapped blocks in order and nothing else',
  'Reading a regular file block by block visits the extents and subtrees of its tree in order. Each read returns the next block of the file: the bytes of the block that the extent maps, or zeros where the extent is not written; its length is the rest of the file, at most a block. It succeeds exactly when the buffer holds a block, every extent and subtree starts at the block where the previous one ended, a subtree is valid (with its checksum) and one level below its parent, the file has bytes left, and the seeks and reads needed, no others, succeed. When the extents are exhausted the end is reported exactly if the size of the file has been reached; files that are not mapped contiguously yield an error, never wrong data. The rest of the buffer is left alone, and reading never panics. After a read that failed because the device did, later reads of a well-formed tree fail or continue with the same block: they never return another one, nor report the end before the last byte was returned.',
  ['inputs', 'histories'], 'every file size, first block, physical block, data and every combination of failing operations, for 17 shapes of trees (depth 0 to 2, up to five extents in a leaf, written, unwritten and empty ones); whole sequences of reads up to the end of the file',
  'tests read no file: the result depends on the whole tree, on the position reached by earlier reads and on each operation',
  ['src/ext4/file.rs', 'src/ext4/regular_file.rs', 'src/ext4/fs.rs', 'src/ext4/extent/tree.rs'],
  [('reading', 'Ext4FileInternal::read_next_block'), ('blocks', 'Ext4Fs::read_block')],
  'sequences of reads over symbolic media with fixed tree shapes, operations and results compared with the specification')

P('C23', 'Files are opened according to their type',
  'Opening a file reports the type recorded in the mode of its inode: a regular file or directory is opened exactly when its inode uses extents, has no inline data and its root tree is valid (magic, at most 4 entries), a directory moreover only without a hash index; anything else of these is an error. Every other type, known or not, is reported as unsupported together with the type. A regular file reports the size recorded in its inode. Opening never panics.',
  ['inputs'], 'every content of the inode',
  'tests open the root directory only',
  ['src/ext4/file.rs', 'src/ext4/directory/directory.rs', 'src/ext4/regular_file.rs', 'src/ext4/inode/inode.rs'],
  [('dispatch', 'Ext4File::open, Ext4Directory::open, Ext4FileInternal::open')],
  'guards of the resulting variants as boolean diagrams over the symbolic inode compared with the specification')

P('C32', 'Listing a directory reports every entry of every block once, then the end',
  'Reading the entries of a directory one by one returns the entries of all its blocks (C19), in file order, each once. A block is read exactly when the entries of the blocks before it are exhausted; blocks without entries are passed over. The listing succeeds only if every block lies completely within the size of the directory and can be read; anything else is an error, never an end. The end is reported exactly when all blocks have been read and they make up the size of the directory. Nothing panics.',
  ['inputs', 'histories'], 'every directory size, content outside the record lengths, and every combination of failing operations, for 8 shapes (one to three blocks, one or two levels, up to three entries per block); whole sequences of reads',
  'tests list one directory of one block',
  ['src/ext4/directory/directory.rs', 'src/ext4/directory/block.rs', 'src/ext4/file.rs'],
  [('listing', 'Ext4Directory::read_next_entry, read_next_block')],
  'sequences of reads over symbolic media with fixed shapes, operations and results compared with the specification')

P('C24', 'Block devices of every kind read exactly the block asked for',
  'A block device over a file, over a device of the system and in memory agree: the block size is the one given (the physical block size the kernel reports, for a device of the system), the number of blocks that of the whole blocks of the medium. Reading block n succeeds exactly when the buffer holds a block, n times the block size can be expressed and the medium yields all of the block; it places exactly the bytes of the medium from n times the block size on at the start of the buffer, leaves the rest of the buffer alone and returns the block size. It never depends on or is limited by what was read before, and never panics. Opening a path, also that of a member of an array, opens the file of that name and no other, and fails if that cannot be opened; a duplicate reads the same medium with the same block size.',
  ['inputs', 'histories'], 'every medium, size, block size other than 0, block number, buffer length, current position and failure of the system',
  'tests read in-memory devices only, with one block size and a buffer of a block',
  ['src/block_device/file.rs', 'src/block_device/native.rs', 'src/block_device/in_memory.rs', 'src/block_device/internal.rs', 'src/ioctl/blk.rs'],
  [('reading', 'InternalFile::read_block, InMemoryBlockDevice::read_block'), ('size', 'BlockDevice::block_size, block_count'), ('requests', 'BLK_GETSIZE64, BLK_PBSZGET')],
  'value graphs over a symbolic medium; operations of the system as opaque events with their positions, lengths and request numbers')

P('C25', 'A block device read as a stream yields its bytes in order',
  'Reading a block device as a stream (BlockDeviceReader) from position p takes the block p / block size and returns its bytes from p on, as far as the buffer holds them and up to the end of the block; it advances the position, which is the first byte to begin with, by as much (not at all if the device fails), leaves the rest of the buffer alone, fails only when the device does and reads nothing, without an error, at or beyond the last block. Seeking counts from the start, from the end of the last block or from the current position, fails exactly when the result is negative or cannot be expressed, and returns the position at which what follows starts. A duplicate starts at the position of the original and is independent of it; reading single blocks leaves the position alone. The same holds for devices in memory and for files, within the medium. Nothing panics.',
  ['inputs', 'histories'], 'every position, seek, buffer length, device size and content, failing operations; block sizes 512, 1000, 4096, 2^32 - 1 and, for all but one obligation, any; sequences of up to three reads, and reads after seeks',
  'tests run eight sequences on one device of 8 blocks',
  ['src/block_device/reader.rs', 'src/block_device/in_memory.rs', 'src/block_device/file.rs', 'src/block_device/native.rs'],
  [('stream', 'BlockDeviceReader::read, seek, try_clone'), ('media', 'Read and Seek of the devices')],
  'value graphs from an arbitrary position; sequences of calls with the state carried over; results compared with the specification')

P('C01', 'Nothing ever changes the devices and files examined',
  'md-recover only reads. Every file or device it opens is opened for reading only, never created, truncated or appended to. No code of the program or the library calls anything that writes to, resizes, renames, removes or creates a file or starts another program, and the only requests made of devices are those that report (such as their size), never one that changes a device, its partitions or its settings.',
  ['inputs', 'histories'], 'every call and every function passed on as a value in the crate, the program and everything they instantiate; every request number',
  'a test can only observe that the files it knows of did not change',
  ['src/block_device/file.rs', 'src/block_device/native.rs', 'src/md/device/device.rs', 'src/ioctl/blk.rs', 'src/main.rs'],
  [('opening', 'FileBlockDevice::open_path, NativeBlockDevice::open_path, MdDevice::open_path'), ('requests', 'ioctl::blk')],
  'query over all resolved calls and function values of the monomorphised program: classification of the interfaces and of their constant arguments (flags, request numbers)')

P('C26', 'Roles of devices are classified as md records them',
  'A role recorded for a device in a version 1 superblock is a position in the array exactly if it is at most 0xfeff, and then this position; 0xffff is a spare, 0xfffe a faulty device, 0xfffd a journal, and everything between positions and these is invalid. The classes exclude each other and cover every value. Roles are equal exactly if the recorded values are.',
  ['inputs'], 'all 65536 values of a role',
  'tests contain three roles',
  ['src/md/superblock/role.rs'],
  [('classes', 'MdDeviceRole::device_number, is_spare, is_faulty, is_journal, is_invalid, is_valid')],
  'boolean diagrams over the recorded value compared with the specification')

P('C27', 'Devices have distinct identities, whatever they are called',
  'Every device created gets an identity different from that of every other one, also if they have the same name or none and are created by several threads at once; an identity equals itself and its duplicates, and equal identities hash alike.',
  ['histories', 'schedules'], 'three devices in any combination of equal, different and missing names after any number of earlier ones (fewer than 2^64 - 64); atomicity of the counter from its operations',
  'tests create few devices in one thread',
  ['src/md/device/id.rs'],
  [('identity', 'MdDeviceId::new, eq, hash')],
  'symbolic counter with atomic operations as events; equality and hashed values compared')

P('C28', 'Names are byte strings: cut at the first NUL, compared, ordered, hashed so',
  'A name stored in a fixed field (labels, mount points) ends before the first NUL byte or, without one, at the end of the field. Names are equal exactly if their bytes are; they are ordered byte by byte, a prefix before longer names, and both orders agree with equality; equal names hash alike, however they are stored; the length of a name is its number of bytes and it is empty exactly if that is 0; an owned copy has the same bytes. Conversions between names and text keep every byte: a name becomes text exactly if its bytes are valid UTF-8, and shown with losses, nothing but the invalid parts changes. No content, valid UTF-8 or not, makes any of this panic.',
  ['inputs'], 'every content of names of 0 to 4, 7 to 9, 16 and 255 bytes and of fields of 0 to 3, 16 and 64 bytes',
  'no unit test covers these names',
  ['src/ext4/string.rs'],
  [('names', 'Ext4String::from_null_terminated_bytes, eq, cmp, partial_cmp, hash, len, is_empty, to_owned')],
  'results over symbolic bytes compared with the specification for every pair of lengths in the bound')

P('C30', 'Optional parts of version 1 superblocks are there exactly if recorded',
  'A version 1 superblock has a bitmap offset, a recovery offset, a journal tail, or a description of a partial parity log exactly if its feature map has the bit 1, 2, 512 or 1024 respectively. They are the little-endian 32-bit integer at byte 96, the 64-bit integer at byte 152, the 64-bit integer at byte 152, and the 4 bytes at byte 96.',
  ['inputs'], 'every content of an accepted superblock',
  'tests look at the raw layout of one superblock only; four optional parts share two places, told apart by the feature map',
  ['src/md/superblock/version_1/superblock.rs', 'src/md/superblock/version_1/ppl_info.rs'],
  [('optional parts', 'SuperblockVersion1::bitmap_offset, ppl_info, recovery_offset, journal_tail')],
  'presence condition and value graph of each part over symbolic superblock bytes compared with the table')

P('C31', 'Whatever stands for a superblock or device answers exactly like it',
  'A superblock in a box answers every question like the superblock itself. A member of an array, used as a block device, has the block size, number of blocks and blocks of its device, reads the block asked for, once, and fails exactly when the device does. A duplicate of a member has the identity and superblock of the original, a duplicate of an array its members, and duplication fails exactly when that of the device does. A member has a superblock exactly if one was found on it.',
  ['inputs', 'fault_sequences'], 'every superblock, every device, every block number, buffer length and failure',
  'tests use the objects directly and sample devices that do not fail',
  ['src/md/superblock/superblock.rs', 'src/md/device/device.rs', 'src/md/device/superblock.rs', 'src/md/array.rs'],
  [('box', 'impl Superblock for Box<dyn Superblock>'), ('member', 'impl BlockDevice for MdDevice'), ('array', 'MdArray::try_clone')],
  'results and operations of the wrapper over an opaque wrapped object compared with those of the object')

P('C29', 'The program diagnoses the devices it is given, or names every one that fails',
  'Given any number of devices, the program opens all of them. If every one can be opened it prints, once, the diagnosis of the array made of all of them in the order given, and no failure. If some cannot be opened it prints no diagnosis; instead it names exactly those that failed, in the order given, each with its own error. Up to opening and diagnosing the devices themselves (C02, C10) nothing panics.',
  ['inputs', 'fault_sequences'], 'up to 5 devices (thorough: 7) and every combination of those that can be opened',
  'no test runs the program',
  ['src/main.rs'],
  [('program', 'main')],
  'the program evaluated with opaque devices, errors and diagnoses; what reaches the printed texts compared with the specification')

P('C33', 'Sector, block, device and inode quantities keep their exact value',
  'Quantities - numbers and counts of sectors, chunks, stripes, devices, blocks and inodes, event counts and block sizes - keep their value. Converted to or from an integer, to another width, or read from or written to their stored form they stay the same number, without failure. They are equal and ordered exactly as their numbers are, also a number compared with a count. Sums and differences are exact whenever they can be represented; byte positions, sizes in bytes and checked sums are exact, or absent exactly if they do not fit. A sector lies in the chunk, at the place in it, given by quotient and remainder of its number by the sectors per chunk, a chunk on the data device of the remainder in the stripe of the quotient, absent for a divisor of 0. Low and high half of a number are joined with the high half above the low one, and long products are exact.',
  ['inputs'], 'every value of every operand',
  'tests use small numbers: carries, halves above 2^32, widths and overflow do not occur in them',
  ['src/md/units/sector_count.rs', 'src/md/units/sector_number.rs', 'src/md/units/chunk_number.rs', 'src/md/units/device_count.rs', 'src/md/units/device_number.rs', 'src/ext4/units/block_count.rs', 'src/ext4/units/file_block_number.rs', 'src/ext4/units/fs_block_number.rs', 'src/ext4/units/inode_number.rs', 'src/ext4/units/inode_count.rs', 'src/block_device/block_count.rs', 'src/block_device/block_number.rs', 'src/block_device/block_size.rs', 'src/ext/wide_unsigned.rs', 'src/ext/long_mul.rs'],
  [('quantities', 'From, LayoutAs, PartialEq, PartialOrd, Ord, Add, Sub and the methods of the quantity types'), ('joining', 'WideUnsigned::from_low_high'), ('products', 'LongMul::long_mul')],
  'value graph of every such function over symbolic operands compared with the operation on its numbers')
