#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
I, H, S, K, F, C = "inputs", "histories", "schedules", "crash_points", "fault_sequences", "configurations"
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

PATH = "src/evfs_path.c"; EV = "src/evfs.c"; RS = "src/util/range_strings.c"
p("C01", "Path normalization yields the canonical form, within its buffer",
  "For every path, normalization yields the canonical form: separator runs collapse to one '/', '.' segments vanish, each '..' segment removes the preceding real segment (leading ones survive only in relative paths), and every other segment is kept byte for byte, including names that merely begin with dots. It works in place or into a separate buffer, is idempotent, and never writes outside the output range: a result that does not fit is reported as an overflow.",
  [I], "every path string up to the bound, every output capacity, in-place and separate output, plain and drive-letter root syntax",
  "No test calls normalization directly; shims reach it only with a handful of literal paths.",
  [PATH, RS, "include/evfs.h"], [("path normalization", "src/evfs_path.c evfs_vfs_path_normalize, path_normalize_long"), ("token ranges", "src/util/range_strings.c range_token*")], observe=["evfs_path_normalize_ex"])
p("C02", "Absolute-path conversion is exact or reports overflow",
  "Converting a path to absolute form yields the normalized concatenation of the current directory and the path when it is relative, and the normalized path itself when it is already absolute. When the current directory cannot be read or the result does not fit the output buffer an error is returned; success is never reported with a truncated or relative result, and nothing outside the output buffer is written even when it overlaps the input.",
  [I, C], "every path and current directory up to the bound, every output capacity, overlapping and separate output buffers",
  "Tests only use short paths with buffers that always fit.",
  [PATH, "src/shim_jail.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c"], [("absolute conversion", "src/evfs_path.c evfs_vfs_path_absolute"), ("current directory query", "m_get_cur_dir of each backend")], observe=["evfs_path_absolute_ex"])
p("C03", "Path join, dirname, basename and extension agree with their contract",
  "Join yields the head, one separator (none when the head is empty or only a root), and the tail, and fails with an overflow (never a silently cut path) when the result and its terminator do not fit. Basename returns what follows the last separator and dirname what precedes it without the separators in between (but keeping the root), extension returns the suffix starting at the last dot of the final segment unless only dots precede it, and none of them reads outside the path or reports a range outside it.",
  [I], "every pair of path strings up to the bound and every output capacity",
  "The stable tests never call these; examples use a handful of literals.",
  [PATH, RS], [("join", "src/evfs_path.c evfs_vfs_path_join*"), ("basename/dirname/extname", "src/evfs_path.c evfs_vfs_path_basename, evfs_vfs_path_dirname, evfs_vfs_path_extname")], observe=["evfs_path_join_ex", "evfs_path_dirname_ex", "evfs_path_basename_ex", "evfs_path_extname_ex"])
p("C04", "A jail never lets an operation reach a path outside its root",
  "Whatever path is passed to any operation of a jail filesystem, and whatever its current directory is, every path the jail hands to the underlying filesystem is absolute, normalized, and is the jail root itself or lies below it. A path that cannot be converted is rejected with an error and no operation is performed on the underlying filesystem.",
  [I, H], "every path string up to the bound (including '..', repeated separators, over-long and empty ones), every current directory, every operation",
  "test_jail tries a few well-behaved literal paths and one escape attempt.",
  ["src/shim_jail.c", PATH], [("path unjailing", "src/shim_jail.c unjail_path"), ("jail registration", "src/shim_jail.c evfs_register_jail"), ("current directory", "src/shim_jail.c jail__set_cur_dir")],
  observe=["paths received by the wrapped VFS"])
p("C05", "A jail forwards each operation faithfully to the mapped path",
  "For every path that stays inside, an operation on the jail performs exactly the same single operation with the same arguments on jail-root plus the normalized path, and returns the underlying result unchanged, for file and directory operations alike. Changing the current directory only succeeds for an existing directory, later relative paths resolve against it, and reporting it gives back the virtual path without the jail root.",
  [I, H], "every in-jail path up to the bound, every underlying result code, cwd histories of two changes",
  "test_jail checks one happy path per operation.",
  ["src/shim_jail.c"], [("operation forwarding", "src/shim_jail.c jail__*"), ("current directory", "src/shim_jail.c jail__set_cur_dir, jail__get_cur_dir")])
ROT = "src/shim_rotate.c"
p("C06", "Rotating log: appends keep exactly the newest bytes in order",
  "After any sequence of appends to a rotating container of N chunks of C bytes, a read from the start yields a contiguous suffix of everything appended, in order, that ends with the last byte written; nothing is dropped until the appended total exceeds N*C, and at least the newest (N-1)*C bytes are always retained. The reported size equals the number of retained bytes, and on the underlying filesystem there are never more than N chunk files nor a chunk longer than C bytes.",
  [I, H], "every sequence of append sizes up to the bound, including sizes that end exactly on chunk boundaries or span several chunks",
  "test_rotate appends one fixed sequence; boundary-exact and multi-chunk writes are not reached.",
  [ROT], [("write path", "src/shim_rotate.c rotate__file_write"), ("chunk rotation", "src/shim_rotate.c append_new_chunk, activate_chunk")])
p("C07", "Rotating log: reopening restores the same stream",
  "Closing a rotating container and reopening it, with or without a new configuration that differs from the stored one, gives back exactly the stream and size it had, and appends continue where they left off. This holds wherever in the generation cycle the container is and also when the writer was interrupted between any two operations on the underlying filesystem: the reopened stream is then a contiguous part of what was appended and stays appendable.",
  [H, K], "every append history up to the bound, a reopen after any of them, interruption between any two underlying operations",
  "Tests reopen once, in one state, and never interrupt.",
  [ROT], [("chunk discovery", "src/shim_rotate.c discover_chunk_sequence, rotate__open")])
p("C08", "Rotating log: seek, read, overwrite and tell behave as on a flat file",
  "Over the retained bytes a rotating container behaves as one flat file: reads and writes at any position, across chunk boundaries, transfer exactly the bytes a flat file would, the position advances by the bytes transferred, and overwriting retained bytes changes neither the size nor any other byte. Reads stop at the end of the retained data.",
  [I, H], "every seek position, transfer length and short operation sequence up to the bound",
  "test_rotate reads and overwrites at a few fixed offsets.",
  [ROT], [("random access", "src/shim_rotate.c rotate__file_read, rotate__file_write, rotate__file_seek, activate_chunk")])
p("C09", "Rotating log: truncate and trim remove exactly the requested bytes",
  "Truncating a rotating container to a size keeps exactly its first bytes up to that size; trimming removes whole old chunks from the start, never more than requested, and keeps the remaining bytes unchanged. Size, position and subsequent reads and appends agree with the remaining bytes.",
  [I, H], "every truncate size and trim amount after any append history up to the bound",
  "test_rotate truncates and trims at one size each.",
  [ROT], [("truncate", "src/shim_rotate.c rotate__file_truncate"), ("trim", "src/shim_rotate.c rotate_trim_start via file control")])
p("C10", "Rotating log: damaged containers and failing storage never hang or corrupt",
  "Opening, reading, appending to or deleting a rotating container whose directory holds unexpected names, missing chunks or a damaged description, or whose storage fails at any point, always terminates without touching memory outside its own structures and reports an error instead of success. Invalid container geometry is rejected, and a failed open leaves no handle behind.",
  [I, F], "arbitrary chunk names and description bytes, storage error at any underlying operation",
  "No test damages a container or injects a storage error.",
  [ROT], [("chunk discovery", "src/shim_rotate.c discover_chunk_sequence"), ("configuration", "src/shim_rotate.c rotate__open, read_config/write_config")])
p("C11", "Tar filesystems expose exactly the archive's members",
  "For every well-formed tar image, looking up or listing a member yields its recorded size and type, reading it at any offset yields exactly the archived bytes, and reads never run past the member's end or return bytes of a neighbour. Both the file-backed and the resource-backed filesystem agree; names that are not archived are reported as missing.",
  [I], "every member size, name and content up to the bound, every read offset and length",
  "Tests use one embedded archive.",
  ["src/tar_fs.c", "src/tar_rsrc_fs.c", "src/tar_iter.c", "src/tar_iter_rsrc.c"], [("iteration", "src/tar_iter.c tar_iter_next; src/tar_iter_rsrc.c tar_rsrc_iter_next"), ("index and reads", "src/tar_fs.c, src/tar_rsrc_fs.c")])
p("C12", "Malformed tar images are handled without hang or out-of-bounds access",
  "Registering and using a tar filesystem on an image with arbitrary bytes (truncated, bad magic, wrong or hostile size fields, unterminated names) always terminates, never reads or writes outside the image and the filesystem's own memory, and yields either an error or a listing of members that lie inside the image.",
  [I], "every image up to the bound with arbitrary header bytes",
  "Tests only use one valid archive.",
  ["src/tar_iter.c", "src/tar_iter_rsrc.c", "src/tar_fs.c", "src/tar_rsrc_fs.c"], [("header parsing", "src/tar_iter.c, src/tar_iter_rsrc.c"), ("index", "src/tar_rsrc_fs.c build_index")])
p("C13", "Romfs exposes exactly the image's files",
  "For every well-formed romfs image, opening, querying or listing a path gives the recorded type and size, and reading at any offset yields exactly the recorded bytes and never bytes beyond the file's end. Every mutation is refused and paths that do not exist are reported as missing.",
  [I], "every file content and size, read offset and length, and lookup path within the bound",
  "Tests compare one embedded image with its source.",
  ["src/romfs_fs.c", "src/romfs_common.c"], [("header access", "src/romfs_common.c"), ("file operations", "src/romfs_fs.c")])
p("C14", "Malformed romfs images are handled without hang or out-of-bounds access",
  "Registering and using a romfs on an image with arbitrary bytes (truncated, cyclic or out-of-range links, hostile sizes, unterminated names) always terminates, never reads or writes outside the image and the filesystem's own memory, and every failure to read a header is reported as an error.",
  [I], "every small image with arbitrary header fields",
  "Tests only use one valid image.",
  ["src/romfs_fs.c", "src/romfs_common.c"], [("header parsing", "src/romfs_common.c romfs_read_*"), ("directory walk", "src/romfs_common.c romfs_lookup*, index_dir_tree")])
p("C15", "Romfs fast index and directory walk agree",
  "For every image and path, looking a path up through the fast index gives the same file as walking the directories, and both give the same not-found result. Enabling the index changes performance only.",
  [I, C], "every small well-formed image and every lookup path within the bound, index on and off",
  "The index is only exercised on one image with existing paths.",
  ["src/romfs_common.c", "src/util/dhash.c"], [("lookup", "src/romfs_common.c romfs_lookup_abs / fast index")])
p("C16", "Seek, tell, read and end-of-file follow one contract on every filesystem",
  "On every filesystem an absolute, relative or from-the-end seek moves to the same position (clamped to the file's extent where the filesystem is read-only, never negative), tell reports it, reads return the bytes there and advance by exactly the number of bytes returned, and end-of-file is reported exactly when the position is at or past the end. From-the-end seeks count backwards from the end.",
  [I, H], "every offset, origin, read length and file size within the bound, each backend",
  "Tests only seek in a few places on one backend each.",
  [EV, "src/stdio_fs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/fatfs_fs.c"], [("offset conversion", "src/evfs.c evfs__absolute_offset"), ("backend seek", "m_seek of each backend")])
p("C17", "The filesystem registry stays consistent under any history",
  "After any sequence of registrations and removals, lookup by name finds exactly the currently registered filesystems, registering a filesystem again adds nothing, and the default is always a registered filesystem (the one last chosen as default while it stays registered) or none when nothing is registered. Removing a filesystem runs its cleanup exactly once, later lookups of its name use the default as documented, and removing all of them cleans each registered one exactly once.",
  [H], "every sequence of register, unregister, set-default, lookup and iterate calls up to the bound over three filesystems",
  "Tests register two or three filesystems in one order and never remove them in others.",
  [EV], [("registry list", "src/evfs.c evfs_register, evfs_unregister, evfs_find_vfs, evfs_vfs_name")])
p("C18", "The registry is safe under concurrent use",
  "With threading enabled, when registrations, removals, default changes and lookups from different threads interleave in any way, every registered filesystem stays reachable exactly once, no name is registered twice, and every shared registry access happens while holding the registry lock.",
  [S], "every interleaving of one operation with the operations of another thread at lock boundaries and at unlocked accesses",
  "Tests are single threaded.",
  [EV, "src/evfs_pthread.c", "src/evfs_c11_thread.c"], [("registry lock", "src/evfs.c LOCK()/UNLOCK() around s_vfs_list")])
p("C19", "Handles never leak or survive a failure",
  "A failed open of a file or directory, for any reason including allocation failure, leaves no handle and no memory behind and stores no handle for the caller; closing a file or directory releases it exactly once, and the closed handle cannot be used again. This holds on every filesystem and shim.",
  [F, H], "every failure point (each allocation, each underlying call) of open, close, directory open and close",
  "Tests never fail an allocation and do not check for leaks.",
  [EV, "src/shim_trace.c", "src/shim_jail.c", ROT], [("open/close", "src/evfs.c evfs_vfs_open, evfs_file_close, evfs_vfs_open_dir, evfs_dir_close")])
p("C20", "Copying a file is exact or reports an error",
  "Copying one open file to another transfers exactly the source's bytes, in order, for every file size and buffer size, also when the source is on another filesystem. Whenever a read, write or the final close fails, or not every byte could be transferred, the copy reports an error and never success; the copy is closed and the source stays open.",
  [I, F], "every source size and buffer size up to the bound, every fault position",
  "Copy is exercised with one file and one buffer size at most.",
  [EV], [("copy loop", "src/evfs.c evfs_copy_to_file")])
p("C21", "Creating a directory path creates each missing ancestor and nothing else",
  "Creating a directory path creates exactly the missing directories on the way to it, in order from the root, leaves existing ones alone, and reports an error as soon as a component exists as a file or cannot be created. On success every component exists and is a directory; the caller's path string is left as it was.",
  [I, F], "every path up to the bound, every pre-existing set of directories, failure of any creation",
  "Tests create one path on one empty directory.",
  [EV], [("path creation", "src/evfs.c evfs_vfs_make_path, evfs_vfs_make_path_range")])
p("C22", "A read-only filesystem is never modified",
  "While a filesystem is read-only, because of its kind or because it was switched to read-only, no operation modifies it: opens that would create, truncate or write are refused with a read-only error, and deletes, renames, directory creation and writes are refused before the storage is touched. Reading stays possible.",
  [I, C], "every combination of open flags and every mutating operation, read-only switched on",
  "Tests never switch a filesystem to read-only.",
  ["src/stdio_fs.c", "src/fatfs_fs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c"], [("read-only guard", "src/stdio_fs.c stdio__open etc.; src/fatfs_fs.c fatfs__open etc."), ("immutable backends", "m_delete/m_rename of tar and romfs")])
p("C23", "The trace shim is transparent",
  "Any operation through the trace shim performs exactly the same operation, with the same arguments, on the traced filesystem and returns its result and output unchanged; tracing only adds report lines and never changes, drops or repeats an operation.",
  [I, F], "every operation with arbitrary arguments and arbitrary underlying results",
  "Trace tests run the happy path and compare few results.",
  ["src/shim_trace.c"], [("forwarding", "src/shim_trace.c trace__*")])
p("C24", "Bounded string building is all-or-nothing and stays in bounds",
  "Appending text, characters, numbers or formatted output to a bounded string range either appends exactly the intended bytes and advances the range past them, or reports failure; it never writes outside the range, and the result is always terminated inside it when any room exists. Copies and appends of ranges obey the same rule.",
  [I], "every range capacity and text up to the bound, and every sequence of two appends",
  "No stable test calls the string range functions directly.",
  [RS], [("append/copy", "src/util/range_strings.c range_cat_*, range_copy_*, str_copy*")])
p("C25", "Tokenizing a string loses nothing and always terminates",
  "Splitting a string at delimiters yields, in order, exactly the maximal delimiter-free substrings, each one a range inside the string, and ends after the last one; a range limit is never read past. Trimming, prefix and suffix comparison and comparison of ranges agree with the same operation on the plain bytes.",
  [I], "every string, delimiter set and range limit up to the bound",
  "No stable test calls the tokenizers directly.",
  [RS], [("tokenizers", "src/util/range_strings.c range_token*, range_ltrim/rtrim, range_eq, range_strncmp")])
p("C26", "Glob matching follows its pattern language and stays inside its inputs",
  "A glob pattern matches a name exactly when its language says so: '?' one character, '*' any run, '[...]' one character of a set or range, '[!...]' one outside it, and everything else itself; '?' and '*' never match a directory separator. Matching terminates for every pattern and name, malformed patterns included, and never reads outside either.",
  [I], "every pattern and name up to the bound, both case modes",
  "Tests match '*' style patterns on a few names.",
  ["src/util/glob.c"], [("matcher", "src/util/glob.c glob_match, match_set")])
p("C27", "Directory search returns exactly the matching entries",
  "Searching a directory returns, one per call and in order, exactly the entries whose name matches the pattern, then reports the end; an error of the underlying listing is passed on.",
  [I, F], "every listing of up to the bound entries with arbitrary types, every pattern from a family, every type mask, an error at any point",
  "Tests search one directory with one pattern.",
  [EV, "src/util/glob.c"], [("find", "src/evfs.c evfs_dir_find")])
p("C28", "The hash map behaves as a map under any history",
  "After any sequence of insertions, replacements, removals and lookups the hash map holds exactly the last value inserted for each key not removed since, lookup of any other key fails, the count is right, iteration visits each entry once, and growing or rehashing changes none of this. Keys and values replaced or removed are released exactly once and nothing outside the given key and value objects is read or written.",
  [H, I], "every operation sequence up to the bound over symbolic keys with arbitrary hash collisions, including growth",
  "The map is only used through two indexes that never remove or replace.",
  ["src/util/dhash.c"], [("robin hood table", "src/util/dhash.c dh_insert, dh_lookup, dh_remove, dh_next, resize")])
p("C29", "Bounded C-string copy and concatenate follow their contract",
  "Bounded copy and concatenation never write past the stated destination size, always terminate the result when the size is not zero, and return the length they tried to create so truncation is detectable; the variant copying a counted source never reads beyond the count.",
  [I], "every source, destination content and size up to the bound",
  "No stable test calls these directly.",
  ["src/util/bsd_string.c"], [("strlcpy/strlcat/strxcpy", "src/util/bsd_string.c")])
p("C30", "Nearest-value search returns the nearest element",
  "Searching a sorted table returns the index of an element that is nearest to the sought value (respectively the nearest one not below or not above it), returns the closest end of the table when there is none, and never reads outside the table, for every table length from one up. Exact search returns the index of an equal element or reports that there is none, also for an empty table.",
  [I], "every sorted table up to the bound and every sought value",
  "Only a few lookups in one table are exercised, in the chunk search.",
  ["src/util/search.c"], [("binary search", "src/util/search.c search_nearest, search_nearest_above, search_nearest_below")])
p("C31", "The FAT wrapper performs the operation asked for and reports its outcome",
  "Every operation on the FAT filesystem wrapper is carried out by the matching library call on the same path with flags meaning the same, every library error is reported as an error of the corresponding kind, and success is only reported when the library succeeded. Truncation leaves exactly the requested size (or the shorter existing one), and size and position queries agree with the library's.",
  [I, F], "every open flag combination, argument and library result code",
  "The stable tests do not mount a FAT image.",
  ["src/fatfs_fs.c", "src/fatfs_image.c"], [("wrapper", "src/fatfs_fs.c fatfs__*"), ("image block device", "src/fatfs_image.c disk_*")])
p("C32", "Every operation releases the locks it takes",
  "With threading enabled, every operation of the core, of each filesystem and of each shim releases every lock it acquires before it returns, on success and on every error path, and never acquires a lock it already holds in a way the lock does not permit.",
  [F, C], "every operation with arbitrary arguments, every failure of an underlying call",
  "Tests never take the error paths with threading observed.",
  [EV, "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", ROT, "include/evfs_internal.h"], [("lock pairs", "LOCK()/UNLOCK() and MAKE_ABS in each backend")])
p("C33", "The host-file wrapper performs the operation asked for and reports its outcome",
  "Opening a host file creates, truncates, appends or refuses exactly as the open flags say, and each read, write, seek, sync, truncate, delete, rename and directory operation reaches the host with the same arguments and reports success only when the host did. Sizes and types reported are those of the host object.",
  [I, F], "every open flag combination with the file present or absent, every host result",
  "Tests use three flag combinations on a working filesystem.",
  ["src/stdio_fs.c"], [("wrapper", "src/stdio_fs.c stdio__*")])
p("C34", "Bad arguments and missing operations yield errors, never crashes",
  "Calling any entry point with missing objects or paths, an unknown filesystem name with no default, or an operation the filesystem does not provide, returns the documented error without dereferencing anything, and every error or command code has a printable name. Valid calls are forwarded once with their arguments and their result is returned.",
  [I, C], "every entry point, every subset of provided operations, null and non-null arguments",
  "Tests call only valid operations.",
  [EV], [("argument checks", "src/evfs.c PTR_CHECK, CHECK_METHOD, MethodFail stubs"), ("names", "src/evfs.c evfs_err_name, evfs_cmd_name")])
p("C35", "Integer formatting is exact and all-or-nothing",
  "Formatting a signed or unsigned integer into a string range yields exactly its decimal digits, with a leading minus sign for negative values and nothing else, for every value of the type including the extremes, or reports that it does not fit and leaves the text in the range as it was.",
  [I], "every value up to five digits and every value near a power of ten or an end of the type, several capacities",
  "No stable test formats numbers and compares them.",
  [RS, "src/util/intmath.c"], [("formatting", "src/util/range_strings.c range_cat_int, range_cat_uint"), ("digits", "src/util/intmath.c")])
p("C36", "Listing a directory yields each entry once, then ends; rewinding restarts",
  "Listing a directory of an archive or image filesystem, directly or through a shim, yields every entry exactly once with its right name, size and type and then reports the end; rewinding restarts at the first entry, and entries of other directories never appear.",
  [I, H], "every small archive or image, listings interleaved with rewinds",
  "Tests list one directory once.",
  ["src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/shim_jail.c", "src/stdio_fs.c"], [("directory handles", "m_read_dir/m_rewind_dir of each backend")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
