#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single place where the property texts live)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['src/s3ql/' + f if not f.startswith('contrib') else f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'Link counts and reference counts are always exact',
 "After every file system request (create, link, rename with or without replacement, unlink, rmdir, forget, setting or removing extended attributes, writing, truncating, replicating or removing trees), whether it succeeds or fails, each inode's link count equals the number of directory entries pointing to it, each stored name is counted once per directory entry and extended attribute using it, and each storage object is counted once per file block referring to it. No directory entry, attribute, symlink target or block ever refers to something that does not exist, and names, objects and unlinked inodes that nothing refers to (and nobody holds open) do not remain.",
 ['inputs', 'histories'], 'every valid metadata state (bounded number of inodes, entries, names, attributes, blocks, objects with arbitrary contents) and every argument of every request, as an inductive step',
 'Tests run each request from a handful of hand-made trees; reference-count bugs need shared names, hard links, attributes that share a name with a directory entry, or deduplicated blocks in the right combination.',
 ['fs.py', 'inode_cache.py', 'block_cache.py', 'database.py'],
 [('name reference counting', 'fs.py:_add_name/_del_name'), ('inode removal', 'fs.py:_remove/_replace/_purge_inode/forget'), ('object reference counting', 'block_cache.py:_deref_obj/upload_if_dirty/remove')],
 [('names.refcount', 'uses of a name', 'database.py:create_tables'), ('inodes.refcount', 'number of hard links', 'database.py:create_tables'), ('objects.refcount', 'number of blocks using an object', 'database.py:create_tables')],
 ['metadata tables after the request with the inode cache flushed'])

prop('C02', 'Reading a file returns exactly the bytes last written',
 "For every sequence of writes, truncations, extensions and reads on a file, a read returns for each byte the value most recently written there and zero for bytes never written or cut off by a truncation since, and never returns data beyond the end of the file. The file size is always the end of the furthest write or the size set by the last truncation, whichever applies, no matter how offsets and lengths fall relative to block boundaries and how the data is spread over cache, storage objects and holes.",
 ['inputs', 'histories'], 'all offsets, lengths, sizes and byte values; all distributions of blocks over cache / storage / hole; block size fixed to small representative values; bounded number of operations',
 'Tests use a few offsets with one block size; the interesting inputs are the ones straddling block boundaries, sparse blocks shorter than the block size, and truncation into a hole followed by extension.',
 ['fs.py', 'block_cache.py'],
 [('block arithmetic', 'fs.py:_readwrite/read/write'), ('truncation', 'fs.py:setattr'), ('block lookup', 'block_cache.py:get/_get_entry'), ('entry I/O', 'block_cache.py:CacheEntry')],
 [('inodes.size', 'file size', 'database.py:create_tables')], ['return value of read', 'size attribute'])

prop('C03', 'Namespace and attribute requests have exactly their documented effect',
 "Every request that looks up, creates, links, renames, replaces or removes a directory entry, or reads or changes attributes, symlink targets or extended attributes, returns the object it was asked for and changes exactly the entries and attributes it names, leaving every other entry, attribute and extended attribute of the file system as it was. A request that cannot be carried out (missing name, wrong type, non-empty directory, reserved control file name) fails with an error and leaves names, attributes and contents unchanged.",
 ['inputs', 'histories'], 'every valid bounded metadata state and every argument of the request',
 'Unit tests check the result of each request on one fresh tree and do not check that everything else stayed the same for other trees.',
 ['fs.py', 'inode_cache.py'],
 [('request handlers', 'fs.py:lookup/_create/link/rename/_replace/unlink/rmdir/setattr/setxattr/removexattr/readlink')],
 [], ['metadata tables before/after', 'errno'])

prop('C04', 'Immutable trees and failsafe mode admit no modification',
 "Once a file or directory has been made immutable, no ordinary request changes its contents, size, attributes or extended attributes, nor adds, removes, renames or replaces an entry directly inside it (only its number of links, and with it the change time, follows hard links made elsewhere); such requests fail with a permission error. Once the file system has switched to failsafe mode after a storage problem, every request that would modify any file, directory or attribute fails and has no effect, while reading still works.",
 ['inputs', 'histories', 'fault_sequences'], 'every valid bounded state with arbitrary locked flags and failsafe flag, every modifying request with arbitrary arguments',
 'Tests lock one directory and try a few operations; a forgotten check in one request path goes unnoticed.',
 ['fs.py'], [('locked / failsafe checks', 'fs.py: every modifying handler')],
 [('inodes.locked', 'immutability flag', 'database.py:create_tables'), ('failsafe', 'read-only mode', 'fs.py:Operations')], ['metadata tables before/after', 'errno'])

prop('C05', 'Replicating a tree yields an identical and independent copy',
 "Replicating a directory tree makes the target contain exactly the names, file types, attributes, symlink targets, extended attributes, hard-link structure and file contents (including data not yet uploaded) of the source at that moment. Afterwards source and copy share no mutable state: every storage object is counted once for each tree, and a later write, truncation or removal in one tree never changes what the other one contains.",
 ['inputs', 'histories'], 'every bounded source tree (shared names, hard links, symlinks, xattrs, shared and dirty blocks) and every batch boundary',
 'Tests copy two or three small fixed trees, with the batch limit never reached and without dirty data of files that nobody has open.',
 ['fs.py', 'block_cache.py'], [('replication', 'fs.py:copy_tree')], [], ['metadata tables after replication'])

prop('C06', 'Recursive removal and locking reach the whole tree and nothing else',
 "Recursively removing a directory entry removes every entry below it, including immutable ones, and frees everything only they used, while entries outside the tree and other hard links to its files remain untouched. Recursively making a tree immutable marks every file and directory in it and nothing outside it, wherever the work is split into batches.",
 ['inputs', 'histories'], 'every bounded tree shape and every batch size', 
 'Tests use small trees that fit into one batch, so batch boundaries and re-queued directories are never exercised with varying shapes.',
 ['fs.py', 'database.py'], [('recursive removal', 'fs.py:remove_tree'), ('recursive locking', 'fs.py:lock_tree')], [], ['metadata tables after the request'])

prop('C07', 'Directory listings deliver every entry exactly once',
 "Listing a directory in any number of chunks, continuing each time from the position returned with the last delivered entry, delivers every entry that exists throughout exactly once, with the right name and attributes, even if other entries are created or removed between the chunks. Only delivered entries are counted as looked up by the kernel, and the control file is never listed.",
 ['inputs', 'histories', 'schedules'], 'every bounded directory content, every buffer-full point, and one arbitrary concurrent creation or removal between chunks',
 'The FUSE tests are excluded from the baseline and unit tests list one directory in one go.',
 ['fs.py'], [('offset scheme', 'fs.py:readdir')], [], ['readdir replies', 'lookup counts'])

prop('C08', 'Inode attribute changes are never lost by the attribute cache',
 "Attributes read for an inode are always those most recently set for it, in whatever order inodes are accessed, created, modified, evicted from the attribute cache, flushed and deleted. After a flush the database holds exactly the current attributes of every existing inode and nothing for deleted ones.",
 ['histories', 'inputs'], 'all bounded sequences of get/set/create/delete/flush/drop with arbitrary attribute values and a cache smaller than the number of inodes',
 'Tests run one random sequence; eviction in the presence of deletions and re-reads depends on exact positions.',
 ['inode_cache.py'], [('ring of cached rows', 'inode_cache.py:InodeCache')], [], ['database rows', 'attributes returned'])

prop('C09', 'No interleaving of cache activity loses or corrupts file data',
 "Whatever the interleaving of reads, writes, truncations, removals, flushes, evictions, background uploads and downloads, reading a block afterwards yields the data last written to it, and a block whose latest data has not been stored successfully stays in the local cache and stays marked as modified. A failed upload or download never makes the cache treat unsaved data as saved or incomplete data as valid.",
 ['schedules', 'fault_sequences', 'histories'], 'all schedules of a bounded set of concurrent cache requests and worker tasks, all success/failure outcomes of storage requests, symbolic equality of block contents',
 'Tests run under one scheduler order; interleavings of eviction, rewriting and upload completion cannot be forced by sampling.',
 ['block_cache.py', 'multi_lock.py', '_linked_dict.py'], [('upload protocol', 'block_cache.py:upload_if_dirty/_do_upload/evict/flush'), ('download protocol', 'block_cache.py:_get_entry')], [], ['cache contents', 'storage contents', 'metadata'])

prop('C10', 'Storage objects are kept exactly as long as they are referenced',
 "A storage object holding block data is never modified once written, never reused for other data, and never deleted while any file block refers to it; blocks with equal contents share one object. Once all pending work has finished, every successfully uploaded object that is no longer referenced has been deleted from storage, and every referenced object whose upload succeeded exists there with the contents and size recorded for it.",
 ['schedules', 'fault_sequences', 'histories'], 'all schedules of a bounded set of concurrent cache requests and worker tasks, all upload outcomes, all equalities between block contents',
 'The dangerous cases need a block to be rewritten or removed while its previous object is still being uploaded, or two blocks with equal contents racing.',
 ['block_cache.py'], [('deduplication', 'block_cache.py:upload_if_dirty'), ('dereferencing', 'block_cache.py:_deref_obj/_removal_task')], [('objects', 'object table', 'database.py:create_tables')], ['storage operations issued', 'metadata'])

prop('C11', 'Cache size accounting and limits are respected',
 "The block cache always reports exactly the number and total size of the blocks it holds and the share of them that is modified, and making room always ends with both the size and the entry limit respected, removing least recently used blocks first and never one that is still modified. Iterating over cached blocks while entries are added, removed or reordered never crashes, never leaves the order structure damaged, and visits every block that was not touched meanwhile.",
 ['histories', 'inputs', 'schedules'], 'all bounded sequences of cache operations with arbitrary sizes and limits, including mutation during iteration at every point',
 'Tests use fixed sizes and check only the end result; off-by-one and accounting errors need specific growth, truncation and eviction orders.',
 ['block_cache.py', '_linked_dict.py'], [('size accounting', 'block_cache.py:get/evict/CacheDict'), ('ordered mapping', '_linked_dict.py:LinkedDict')], [], ['usage report', 'cache order'])

prop('C12', 'Per-block locks exclude each other and never get stuck',
 "At any moment at most one task holds the lock for a given block, locks for different blocks do not exclude each other, and a non-blocking attempt never waits. When a lock is released, a waiting task eventually gets it, also if other waiters are cancelled at any point.",
 ['schedules'], 'all schedules of a bounded number of tasks acquiring, trying, cancelling and releasing a bounded number of keys',
 'Tests exercise one or two schedules.',
 ['multi_lock.py'], [('key set guarded by a condition', 'multi_lock.py:MultiLock')], [], ['lock holders'])

prop('C13', 'Data in the local cache survives a crash at any point',
 "If the mount process dies at any point, a subsequent file system check makes every block read back the data that had last been written to the cache file, or the previously stored data where nothing newer reached the cache, and it never discards a cached block whose data is not in storage. Incomplete downloads are never mistaken for data.",
 ['crash_points', 'schedules', 'fault_sequences'], 'every crash point between two externally visible steps of writing, uploading, downloading, evicting and deleting a bounded number of blocks, and every crash point of the check itself',
 'Tests never kill the process between two database or file operations of an upload.',
 ['block_cache.py', 'fsck.py'], [('cache recovery', 'fsck.py:check_cache'), ('download to temporary name', 'block_cache.py:_get_entry')], [], ['block contents after recovery'])

prop('C14', 'Uploaded metadata always reproduces the database',
 "After any sequence of database changes and incremental or full metadata uploads, downloading the metadata for a completed upload yields exactly the database file that was uploaded, or fails with a checksum error; every region of the database changed since its last upload is uploaded again. Regions that no longer belong to the database, or only belong to later uploads, never become part of the result.",
 ['inputs', 'histories'], 'all offsets, lengths, block sizes and file sizes of writes and truncations; all bounded histories of uploads',
 'Tests write a handful of rows; block boundary arithmetic and shrinking and growing databases need specific sizes.',
 ['database.py', 'sqlite3ext.pyx', '_sqlite3ext.cpp'], [('write tracking', '_sqlite3ext.cpp'), ('upload', 'database.py:UploadMetadata'), ('download', 'database.py:DownloadMetadata')], [], ['objects written', 'file reconstructed'])

prop('C15', 'Expiring metadata backups never removes a needed version',
 "Removing old metadata backups keeps the most recent backups (32 by default) and, for every kept backup, every metadata block needed to restore it, and it removes no object other than metadata of expired backups. Expiry completes successfully for every set of backups that uploading can produce.",
 ['histories', 'inputs'], 'all bounded histories of uploads (which blocks changed, database size per backup) and all numbers of backups to keep',
 'Tests use one linear history.',
 ['database.py'], [('expiry', 'database.py:expire_objects/first_le_than')], [], ['objects deleted'])

prop('C16', 'Stale or concurrently mounted metadata is never used silently',
 "A file system is mounted or checked with the newest metadata known to local cache and storage: a local copy is used only if it is not older than the one in storage, a remote copy that is older than the local one is never used, and mounting is refused if the file system appears to be mounted elsewhere, was not unmounted cleanly, or needs checking. Each mount uses a sequence number never used before and publishes it, so that a crash at any point cannot lead a later mount to accept outdated metadata as current.",
 ['configurations', 'crash_points', 'histories'], 'all combinations of local and remote superblock fields and cache presence; every crash point in the mount and unmount sequence',
 'Tests cover a few of the combinations; crashes between saving and uploading the superblock are not simulated.',
 ['mount.py', 'fsck.py', 'database.py'], [('mount decision', 'mount.py:get_metadata'), ('check decision', 'fsck.py:main'), ('superblock writing', 'database.py:write_params')], [('seq_no', 'metadata generation', 'database.py:FsAttributes')], ['decision taken', 'superblock contents'])

prop('C17', 'Checking repairs every inconsistency and leaves consistent data alone',
 "A file system check on consistent metadata reports no error and changes nothing. On inconsistent metadata (wrong counts or sizes, dangling or missing references, unreachable or looping directories, missing, incomplete or superfluous storage objects) it terminates, reports an error, leaves metadata that is consistent, so that another check finds nothing more, and loses no inode, no extended attribute or symlink target of an existing inode, no directory entry that was sound, and no block of an existing file whose object is completely recorded and stored.",
 ['inputs'], 'bounded metadata states with solver-chosen damage: every single kind of damage with all values of the damaged fields, and combinations of two kinds',
 'Tests plant one inconsistency at a time in a small file system.',
 ['fsck.py'], [('individual checks', 'fsck.py:Fsck')], [], ['metadata before/after', 'error flags'])

prop('C18', 'Stored objects are read back unchanged or rejected',
 "Data and metadata stored through the compression and encryption layer are returned unchanged for every content length, starting position, algorithm and passphrase setting. With a passphrase set, reading an object whose stored data or metadata was altered in any way, that was stored under a different name, or that was not encrypted raises an error instead of being accepted.",
 ['inputs', 'fault_sequences'], 'all lengths and chunkings (relative to the internal buffer size), all single structural alterations of the stored object, with cryptographic primitives idealised',
 'Tests flip a few bytes in one object.',
 ['backends/comprenc.py', 'backends/common.py'], [('framing', 'backends/comprenc.py:encrypt_fh/decrypt_fh'), ('metadata authentication', 'backends/comprenc.py:_verify_meta')], [], ['data returned', 'exception raised'])

prop('C19', 'Temporary storage failures are retried and only those',
 "A storage request is repeated after a temporary failure, with delays that grow up to five minutes (or the delay requested by the server), lengthened at random by at most half, until it succeeds or failures have persisted for a day, and then fails with a timeout. Any other failure is reported at once; the result returned is that of the successful attempt, and a repeated transfer starts from the same data and position as the first.",
 ['fault_sequences', 'inputs'], 'all bounded sequences of outcomes (success, temporary, permanent, server-requested delay) and arbitrary elapsed times',
 'Tests mock one or two failures and never reach the time limit.',
 ['backends/common.py', 'backends/s3c.py', 'backends/gs.py', 'backends/swift.py'], [('retry wrapper', 'backends/common.py:retry'), ('failure classification', 'backends/*:is_temp_failure')], [], ['attempts made', 'delays', 'result'])

prop('C20', 'Local directory storage keeps keys and objects apart and complete',
 "With local directory storage, every key maps to its own file, listing with any prefix returns exactly the stored keys that start with this prefix, each once and unchanged, and never temporary files. A stored object is always seen completely old or completely new, also if the process dies while writing it.",
 ['inputs', 'crash_points'], 'all keys up to a bounded length over the relevant characters, all prefixes, every crash point during a store',
 'Tests use a few keys and prefixes.',
 ['backends/local.py'], [('key escaping', 'backends/local.py:escape/unescape/_key_to_path'), ('listing', 'backends/local.py:list'), ('rename into place', 'backends/local.py:write_fh')], [], ['files created', 'keys listed'])

prop('C21', 'Listing remote storage returns every object exactly once',
 "Listing objects in remote storage returns every stored object whose key starts with the given prefix exactly once and without the storage prefix, however the server splits the listing into pages. A malformed or unexpected reply raises an error instead of silently ending the listing.",
 ['inputs', 'fault_sequences'], 'all bounded object sets and all ways of splitting them into pages, with arbitrary continuation markers', 
 'Mock servers return one page.',
 ['backends/s3c.py', 'backends/gs.py', 'backends/swift.py'], [('pagination', 'backends/s3c.py:list/_list_page; backends/gs.py:list; backends/swift.py:list')], [], ['keys yielded'])

prop('C22', 'Object metadata survives storage in HTTP headers',
 "Metadata stored with an object in remote storage is retrieved exactly as it was stored, whatever its length and contents (or refused if it is larger than two kilobytes), even though it may have to be split over several size-limited header fields. With S3-like and Swift storage, missing, exchanged or altered header fields are detected as corruption.",
 ['inputs'], 'all bounded metadata lengths around the field size limit, and all single alterations of the headers',
 'Tests store metadata of a few sizes.',
 ['backends/s3c.py', 'backends/gs.py', 'backends/swift.py'], [('splitting and joining', 'backends/s3c.py:_add_meta_headers/_extractmeta')], [], ['headers sent', 'metadata returned'])

prop('C23', 'Bulk deletion reports exactly what was not deleted',
 "After deleting many objects at once, normally or with an error at any point, the list of keys passed in contains exactly those keys that have not been deleted (and also those of which the storage service does not tell), and no other object was deleted. Deleting objects that do not exist succeeds.",
 ['fault_sequences', 'inputs', 'schedules'], 'all bounded key lists, all success/error replies per key or request, all completion orders of parallel deletes',
 'Tests check one error position per backend.',
 ['backends/common.py', 'backends/local.py', 'backends/s3.py', 'backends/swift.py', 'backends/b2ng.py'], [('parallel deletion', 'backends/common.py:_ParallelDelete'), ('batch requests', 'backends/s3.py, backends/swift.py')], [], ['keys list afterwards', 'objects deleted'])

prop('C24', 'Serialised attribute mappings round-trip and reject garbage',
 "Every mapping from names to elementary values that is serialised (superblock, object metadata) is reconstructed with equal names, values and types, and two different mappings (with names and texts free of null characters) never have the same authenticated form. Any other input is rejected with the documented error and never executed or partially accepted.",
 ['inputs'], 'all mappings with a bounded number of entries and bounded strings; all malformed buffers up to a bounded length',
 'Tests use one mapping.',
 ['common.py', 'backends/common.py', 'database.py'], [('freeze/thaw', 'common.py:freeze_basic_mapping/thaw_basic_mapping'), ('checksum', 'backends/common.py:checksum_basic_mapping')], [], ['mapping returned'])

prop('C25', 'Backup rotation never opens a gap the backups could have covered',
 'Removing old backups with the backup expiry tool never opens a gap: every configured age range that could be covered with the backups that were present, now or after any number of further backups, can still be covered with those that are left, and if the first range starts at the current backup the newest one stays. Ages count in backups, not in time. Only backups in the documented name format that the tool knows about are removed, never more than the safety limit allows; a dry or refused run changes nothing, and running it again without new backups removes nothing more.',
 ['histories', 'inputs'], 'all bounded sequences of backups with arbitrary ages and all bounded generation lists',
 'There is a single example-based test.',
 ['contrib/expire_backups.py'], [('generation assignment', 'contrib/expire_backups.py:process_backups')], [], ['backups kept and removed'])

prop('C26', 'Parallel processing handles every work item exactly once',
 "Whenever work (metadata blocks, objects to delete or verify) is spread over parallel workers, every item is handled by exactly one worker, all items are finished before the operation reports success, and a failure of any worker makes the whole operation fail rather than hang or silently skip the rest.",
 ['schedules', 'fault_sequences'], 'all schedules of a bounded number of workers and items, failure of any worker at any item',
 'Tests run one schedule.',
 ['common.py', 'database.py', 'verify.py'], [('fan-out', 'common.py:ParallelPipeline')], [], ['items handled', 'result'])

prop('C27', 'Verification reports exactly the missing and corrupted objects',
 "Verifying stored data reports an object as missing exactly if it is known to the metadata but not in storage, and, if data is to be read, as corrupted exactly if its contents cannot be read back or do not have the recorded size, and examines every selected object once. The requested starting offset decides which objects are examined, never which verdict an examined object gets.",
 ['inputs', 'fault_sequences'], 'all bounded object tables and storage contents, all read outcomes, all offsets',
 'Tests check one corrupted and one missing object.',
 ['verify.py'], [('object selection and retrieval', 'verify.py')], [], ['reports written'])

prop('C28', 'Credentials and options are taken from the matching sections only',
 'Login, password, passphrase and options for a storage location come only from configuration sections whose storage-url is a prefix of it, later sections taking precedence over earlier ones, and options given on the command line (even if zero or empty) take precedence over all of them. A file that others can read, and unknown entries in applicable sections, are refused. Every command hands the settings so determined to the storage backend, cache and compression it uses, and asks only for credentials that are needed and missing.',
 ['configurations', 'inputs'], 'all bounded sets of sections with arbitrary prefix relationships and all combinations of options',
 'Tests use two sections.',
 ['authinfo.py'], [('section selection', 'authinfo.py')], [], ['options used'])

prop('C29', 'Damaged transfers are never taken for successful ones',
 "An upload to S3-like or Swift storage without TLS counts as successful only if the server confirms exactly the data that was sent; otherwise the damaged object is not left as if it were valid and the upload fails or is repeated. A successful download delivers exactly the object the server announced: an incomplete reply, or for S3-like and Swift storage one of matching length whose checksum does not match, makes it fail or be repeated from the start, leaving nothing of the failed attempt in the output.",
 ['fault_sequences', 'inputs'], 'all replies a server can send in the modelled part of the protocol (status, headers, checksum, body contents), in bounded request sequences',
 'Mock servers corrupt one byte in one place.',
 ['backends/s3c.py', 'backends/gs.py', 'backends/swift.py', 'http.py'], [('checksum verification', 'backends/s3c.py:readinto_fh/_write_fh')], [], ['data returned', 'requests sent'])

prop('C30', 'Reported file system statistics agree with the metadata',
 'The reported numbers of entries, inodes and objects, the total, deduplicated and compressed sizes, and the cache usage equal what the metadata and cache contain, counting objects that are still being uploaded with their uncompressed but not with a compressed size; the numbers for statfs may be some seconds old. Free space and inode counts never become negative or exceed the totals.',
 ['inputs'], 'every bounded metadata state with arbitrary sizes',
 'Tests check a nearly empty file system.',
 ['fs.py', 'statfs.py'], [('statistics', 'fs.py:extstat/statfs')], [], ['statistics returned'])

with open(OUT, 'w') as fh:
    for p in P:
        fh.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
