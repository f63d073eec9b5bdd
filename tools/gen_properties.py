#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["public API boundary"], "hook_needed": None}})

p("C01", "A mutex has one owner at a time, counts recursion, and hands over on release",
  "At most one (handle, thread) pair owns a mutex at any moment, whether it is unnamed or shared by name between threads or processes; the owner may lock it again and must unlock it as many times (or once with the release-all option), and an unlock by anybody else returns failure and changes nothing. "
  "When the owner releases it completely, closes it or re-creates its handle, some thread blocked on it acquires it; no waiter is left asleep while the mutex is free. Using a handle that was never created fails cleanly.",
  ["schedules", "histories"], "every interleaving of lock, timed lock, try lock, recursive lock, unlock, release-all, re-create and close by any number of threads and processes",
  "The tests lock and unlock from a single thread; no second owner, waiter or process ever exists.",
  ["sync/sync_mutex.cpp", "sync/sync_mutex.h", "sync/sync_util.cpp"],
  [("owner id and count under a private critical section", "Mutex::Lock/Unlock/Create"), ("binary semaphore on a pthread mutex and condition variable", "Util::WaitForUnixSemaphore/ReleaseUnixSemaphore")])
p("C02", "A semaphore admits at most N holders, loses no permit and wakes its waiters",
  "A semaphore created with N permits never has more than N holders, and every operation behaves as one atomic step on a counter between 0 and N: a successful lock takes a permit, an unlock returns one (never beyond N) and reports the number that was free just before it. "
  "No thread stays blocked while a permit is free, and a lock that fails takes nothing.",
  ["schedules", "histories"], "every interleaving of lock (infinite, timed, try) and unlock by threads or processes, for every N >= 1",
  "The tests run one thread with N = 2 and only try-locks.",
  ["sync/sync_semaphore.cpp", "sync/sync_util.cpp"],
  [("count, maximum and condition variable under one mutex", "Util::WaitForUnixSemaphore/ReleaseUnixSemaphore")])
p("C03", "Events: auto-reset wakes one waiter per fire, manual stays open until reset",
  "A fired automatic event lets exactly one wait succeed and then closes again (fires that nobody has consumed yet coalesce into one); a fired manual event lets every wait succeed until it is reset; an event created already fired behaves as if fired once. "
  "No thread stays blocked while the event is signaled, even when other waits on the same event time out at the same moment, and a wait never succeeds without a matching fire; a signal fired while threads sleep on the event is for one of them, not for a wait that begins later. Resetting an automatic event fails and changes nothing.",
  ["schedules", "histories"], "every interleaving of wait (infinite, timed, zero), fire and reset by threads or processes, for both kinds of event",
  "The tests only make zero-timeout waits from one thread; no waiter ever blocks.",
  ["sync/sync_event.cpp", "sync/sync_util.cpp"],
  [("signaled flag, waiter count and condition variable under one mutex", "Util::WaitForUnixEvent/FireUnixEvent/ResetUnixEvent")])
p("C04", "A read/write lock excludes writers, shares readers and does not starve writers",
  "While a write lock is held nobody else holds a read or write lock; any number of read locks may be held together when no writer holds or is waiting for the lock. "
  "Once a writer is waiting for current readers to leave, no new reader gets in before it; when the last conflicting holder leaves, waiting threads proceed, and a failed or timed-out attempt leaves the lock as if it had never been made. A read unlock without a matching read lock fails and changes nothing.",
  ["schedules", "histories"], "every interleaving of read lock, write lock (infinite, timed, try) and the unlocks by threads or processes",
  "The tests use one thread and try-locks only.",
  ["sync/sync_readwritelock.cpp", "sync/sync_util.cpp"],
  [("reader count, readers-gone event and writer gate", "ReadWriteLock::ReadLock/WriteLock/ReadUnlock/WriteUnlock")])
p("C05", "Timed waits give up neither early nor late, and leave nothing behind",
  "A lock or wait with a finite timeout on any synchronization object fails only after its timeout has elapsed and reports failure once the total timeout (not a multiple of it, however many internal steps there are) is over; a zero timeout never blocks. "
  "A call that fails - by timeout or because the operating system refuses a clock reading or a wait - holds nothing afterwards: the object stays usable by every thread.",
  ["schedules", "inputs", "fault_sequences"], "every timeout value, every point at which the object is held or released during the wait, and failures of the time source",
  "The tests only use a zero timeout on an uncontended object.",
  ["sync/sync_util.cpp", "sync/sync_readwritelock.cpp"],
  [("absolute deadline computation", "Util::WaitForUnixSemaphore, Util::WaitForUnixEvent"), ("remaining-time computation", "ReadWriteLock::ReadLock/WriteLock")])
p("C06", "A name denotes one shared object, initialised once, fresh after the last close",
  "All handles of one kind opened with the same name - by any threads or processes, even racing on first creation - operate on one object whose initial state is set exactly once, by the first; handles with different names (of letters, digits, dots, dashes and underscores; of names longer than the system takes, those that differ in one letter) or of different kinds never affect each other, nor do unnamed objects. "
  "While any handle is open the state persists; after the last one is closed (or re-created elsewhere), the next open sees a newly initialised object. Opening and closing objects does not leak mappings or descriptors, writes outside the object, or changes process-wide settings.",
  ["schedules", "histories", "inputs"], "every name, kind and history of create, use, re-create and close over threads and processes, including concurrent first opens",
  "The tests open one handle per name, sequentially, in one process.",
  ["sync/sync_util.cpp", "sync/sync_mutex.cpp", "sync/sync_event.cpp", "sync/sync_semaphore.cpp", "sync/sync_readwritelock.cpp"],
  [("shared memory block with init byte, mutex and reference count", "Util::InitUnixNamedMem/UnixNamedMemReady/UnmapUnixNamedMem")])
p("C07", "Shared memory: same name and size is the same zero-initialised bytes, one first",
  "Handles opened with the same name and size see the same bytes: everything one writes, all others read, across threads and processes, over the whole requested size and without touching any bytes outside it. "
  "The block starts zeroed, exactly one of the handles that open it during a lifetime is told it is the first, and the reported size is the requested one; after all handles close, a new open is first again and sees zeros. Blocks of different sizes are different, and an open that the system refuses (an impossible size, no memory, no descriptor) fails, leaves the handle empty and does not stand in the way of later opens.",
  ["schedules", "histories", "inputs"], "every name, size and history of opens, writes, re-opens and closes by threads and processes",
  "The tests use one size (150) and two handles in one thread.",
  ["sync/sync_sharedmem.cpp", "sync/sync_util.cpp"],
  [("named memory with reference count", "SharedMem::Create, Util::InitUnixNamedMem")])
p("C08", "The thread-local allocator hands out disjoint blocks that keep their contents",
  "Every block obtained from a thread's allocator is writable over its whole requested size, disjoint from every other live block, and keeps its contents until freed; resizing preserves the first min(old, new) bytes and duplicating to the system heap gives an equal copy. "
  "Each thread sees only its own allocator, ending a thread's use releases every cached block exactly once, and when memory runs out a call returns null and leaves existing blocks intact.",
  ["histories", "schedules", "fault_sequences"], "every sequence of allocate, resize, duplicate and free with any sizes, by any number of threads, with allocation failures at any point",
  "The test makes one allocation, one resize and one free.",
  ["sync/sync_tls.cpp", "sync/sync_tls.h"],
  [("size-bucketed free lists with a header per block", "TLS::malloc/realloc/free/dup_malloc"), ("per-thread state under a thread-specific key", "TLS::ThreadInit/ThreadEnd")])
p("C09", "The ordered hash is an insertion-ordered map with integer and string keys",
  "For every sequence of operations the ordered hash equals a map that remembers list order: find returns the node last stored under that exact key (keys are integers or byte strings of any content and length), iteration in both directions gives exactly the live nodes in order, and the size is their number - across growth, detaching and re-attaching nodes, moving nodes between tables, emptying, copying and assignment. "
  "Copies are independent and equal; nodes the container still owns are freed exactly once and detached ones never.",
  ["histories", "inputs"], "every sequence of push, unshift, find, detach, remove, resize, empty, copy and assign, with any keys and both hash modes",
  "The test pushes 102 keys and checks that they exist; it never removes by key, copies, empties or refills.",
  ["templates/detachable_ordered_hash.h", "templates/detachable_ordered_hash_util.h", "templates/detachable_ordered_hash.cpp"],
  [("hash chains plus doubly linked list", "OrderedHash Push/Unshift/Detach/InternalResizeHash")])
p("C10", "The packed ordered hash is an insertion-ordered map with stable semantics",
  "For every sequence of operations the packed ordered hash equals an insertion-ordered map: set creates a key at the end or replaces its value in place, unset removes it, find and iteration (forwards and backwards) give exactly the live keys in insertion order, and the size is their number - across growth, compaction, copying and assignment. "
  "Copies are independent and equal, and all memory is released exactly once.",
  ["histories", "inputs"], "every sequence of set, unset, find, iterate, resize, optimise, empty, copy and assign, with integer and byte-string keys and both hash modes",
  "The test inserts 102 keys and removes 100 in insertion order; no copy, compaction with holes, or reuse afterwards.",
  ["templates/packed_ordered_hash.h", "templates/packed_ordered_hash_util.h", "templates/packed_ordered_hash.cpp"],
  [("node array with tombstones and index chains", "PackedOrderedHash Set/Unset/InternalResize*")])
p("C11", "Lists and queues keep exactly their nodes, in order, through detach and attach",
  "For every sequence of operations a list or queue holds exactly the nodes put in and not taken out, in the order the operations imply, readable forwards (and for lists backwards), with a size equal to their number. "
  "A detached node keeps its identity and value and can be attached to another container; moving all nodes empties the source; copies are equal and independent; every owned node is freed exactly once.",
  ["histories"], "every sequence of push, unshift, insert, pop, shift, detach, move-all, copy, assign and empty over several containers",
  "The tests push 100 values and move them once.",
  ["templates/detachable_list.h", "templates/detachable_list_util.h", "templates/detachable_queue.h", "templates/detachable_queue_util.h"],
  [("doubly/singly linked nodes with size counter", "List/Queue Push/Unshift/Detach/DetachAllAndAppend")])
p("C12", "The cache and the fixed-size arrays return what was stored, and copies are deep",
  "A lookup in the cache returns only the value most recently inserted under that exact key, and nothing for a key that was removed, reset away or evicted; a just-inserted key is found, and a lookup or removal of one key never changes the answer for another. "
  "Fixed-size vectors and 2-D arrays keep one independent cell per index, copies and assignments of them are deep and equal in shape and content, and comparison agrees with element-wise comparison.",
  ["histories", "inputs"], "every sequence of insert, find, exists, remove, reset and set-all on caches of any size and keys of any hash; every shape of array and sequence of writes, copies and assignments",
  "The tests insert 100 keys once and index a handful of cells; nothing is copied, assigned or compared.",
  ["templates/cache.h", "templates/cache_util.h", "templates/cache.cpp", "templates/static_vector.h", "templates/static_2d_array.h"],
  [("direct-mapped slots holding key and value", "Cache Insert/Find/Remove"), ("row pointers into one block", "Static2DArray")])
p("C13", "Fast find reports exactly the occurrences a naive scan reports",
  "For every haystack, needle and element type, repeatedly asking for the next match yields exactly the positions of all occurrences, in ascending order and each once, and skipping each match as it is reported yields exactly the non-overlapping occurrences a left-to-right scan finds - including needles longer than the haystack, of length one, repetitive ones and bytes of every value. Setting a new needle and haystack starts afresh, and no search ever reads outside the haystack or needle.",
  ["inputs", "histories"], "every haystack and needle over any alphabet, needle length and order of set-needle / set-haystack / find calls",
  "The tests search four fixed sentences with four tokens.",
  ["templates/fast_find_replace.h", "templates/fast_find_replace_util.h"],
  [("four search strategies chosen by needle length", "FastFind::Init/FindNext")])
p("C14", "Fast replace equals naive replacement, within its limit and its buffer",
  "Replacing produces exactly the input with the first occurrences (all, or at most the given limit) of the needle replaced left to right and everything else - including text after the last replacement - kept, and returns how many were replaced, for every growth or shrink of the text, and also in place where the replacement is no longer than the needle. Replacing into a caller's fixed buffer gives the prefix of that result that fits and never writes past it, extra elements asked for behind an allocated result are there, constructed, and no variant reads outside its inputs or leaks.",
  ["inputs", "histories"], "every text, needle, replacement, limit, buffer capacity and initial allocation",
  "The tests replace one token once, with room to spare and no limit.",
  ["templates/fast_find_replace.h", "templates/fast_find_replace_util.h"],
  [("copy up to match, then replacement, with growing buffer", "FastReplace::FindNext/ReplaceAll/StaticReplaceAll")])
p("C15", "Integers convert to text exactly and never overflow the buffer",
  "For every signed or unsigned 64-bit value (including the extremes), and every radix and thousands separator offered, integer-to-text conversion yields exactly the mathematically correct digits, sign and grouping, NUL-terminated, whenever the result fits the buffer. "
  "When it does not fit the call reports failure, and in no case is a byte outside the buffer written.",
  ["inputs"], "every 64-bit value, separator, radix and buffer size, for the stand-alone conversion and for the conversions built into variant strings and the serializer",
  "The tests convert six values into a 50-byte buffer and look only at the success flag.",
  ["convert/convert_int.cpp", "templates/static_mixed_var.h", "sync/sync_tls.cpp", "json/json_serializer.cpp"],
  [("right-to-left digit generation", "Convert::Int::ToString")])
p("C16", "Human-readable file sizes are exact truncations in the right unit",
  "For every signed or unsigned size the file-size text is the size divided by its power-of-1024 unit (bytes to exabytes), truncated (never rounded up) to the fraction digits asked for (none for bytes and kilobytes), with sign, separators and unit suffix correct; the unit is the largest that keeps the integer part non-zero, except that with fraction digits 1000 of a unit above bytes already counts as a fraction of the next. It is NUL-terminated within the buffer, failure is reported when it does not fit, and nothing outside the buffer is written.",
  ["inputs"], "every 64-bit size, fraction digit count, separator and buffer size",
  "The tests convert three values and look only at the success flag.",
  ["convert/convert_int.cpp"], [("unit selection and fraction digits", "Convert::Int::ToFilesizeString")])
p("C17", "Unicode conversion round-trips valid text and emits only valid text",
  "Converting any sequence of Unicode scalar values between UTF-32 or UTF-16 and UTF-8 in either direction gives the standard encoding, and converting back gives the original; whatever the input - truncated, surrogate, overlong, out of range - the output is well-formed and consists of exactly the valid characters of the input in order (invalid ones, non-characters and combining characters with no base are skipped), up to the first that does not fit. Output is NUL-terminated when terminated input fits, stays within the stated capacity, never ends in a partial character, and the reported resume position follows the last converted character.",
  ["inputs"], "every input string of code units in each encoding, of any validity, with any buffer capacity, with and without explicit length",
  "The tests convert the string 'test' once each way.",
  ["utf8/utf8_util.cpp", "utf8/utf8_util.h"],
  [("encoder/decoder with validity checks", "UTF8::Util::ConvertToUTF8/ConvertFromUTF8")])
p("C18", "UTF-8 scanning decodes each character once and terminates on any bytes",
  "Counting characters, stepping through them and finding a character in a NUL-terminated UTF-8 string agree with the standard decoding up to the first malformed byte: each character is reported once, in order, with its code point value, the one that follows it and its position, and combining characters belong to the base before them. On arbitrary bytes every scan terminates, makes progress and never reads beyond the terminator.",
  ["inputs"], "every byte string, valid or not, NUL-terminated or with explicit length, and every start position and index",
  "None of these functions is called by the tests.",
  ["utf8/utf8_util.cpp", "utf8/utf8_util.h"],
  [("lead-byte driven decoder", "UTF8::Util::NextCodePoint/strlen/FindCodePoint/NextASCIICodePoint")])
p("C19", "Fixed-capacity variant strings hold the exact result, cut or unchanged if full",
  "A fixed-capacity variant keeps the value and type last set; each string operation (set, append, prepend, integer, double and character variants, resize) gives exactly the model string when the result fits, and otherwise the text is cut to the capacity (set, append) or left unchanged (prepend, resize), and its length and terminator always agree with its content. Text appended or set from wide characters is stored as well-formed UTF-8, and no operation touches memory outside the object.",
  ["histories", "inputs"], "every sequence of operations with any data (including embedded zero bytes) around the capacity limit",
  "The tests perform one fixed sequence far from the capacity limit.",
  ["templates/static_mixed_var.h", "utf8/utf8_mixed_var.h"],
  [("size checks before each copy", "StaticMixedVar Set*/Append*/Prepend*"), ("wide conversion", "UTF8MixedVar SetUTF8/AppendUTF8")])
p("C20", "Growable variant strings behave as unbounded strings with value semantics",
  "A thread-allocator-backed variant keeps the value and type last set, and each string operation (set, append, prepend, number and character variants, trim, resize, replace) gives exactly the model string of any length, terminated and with matching size. "
  "Copies and assignments are deep, equal and independent, also from a fresh or self object, and all memory goes back to the thread's allocator exactly once.",
  ["histories", "inputs"], "every sequence of operations, sizes and contents over several variants sharing one allocator",
  "The test runs one fixed sequence on one object and never copies or assigns one.",
  ["sync/sync_tls.h", "sync/sync_tls.cpp"],
  [("growth through the thread allocator", "TLS::MixedVar")])
p("C21", "Serialized JSON is valid and parses back to exactly what was appended",
  "For every sequence of accepted calls the finished output is one valid JSON text which, parsed by a standard parser, has the structure, keys, strings, integers, booleans, nulls and (to the requested precision) finite numbers that were appended, in order, whatever the program's locale; NaN and infinities are refused. Strings may contain any valid UTF-8, control characters, quotes and slashes, with slash escaping on or off; calls that do not fit the current structure are refused and leave the output as it was.",
  ["inputs", "histories"], "every sequence of start/end/append calls, nesting, key and string content, numeric value and option setting",
  "The tests compare one document's success flags and never parse the output.",
  ["json/json_serializer.cpp", "json/json_serializer.h"],
  [("state machine with nesting stack and escaping", "JSON::Serializer")])
p("C22", "The serializer never writes past its buffer, and a refused call changes nothing",
  "However small the buffer, no call writes outside it; a call whose text fits is accepted, and one that does not fit returns failure and leaves the text, position and structure exactly as before, so that the buffer can be drained and the call repeated (finishing continues where it stopped). Draining the buffer in pieces at any points gives the same document as one large buffer, and size estimates are never too small.",
  ["inputs", "histories"], "every buffer size, call sequence and position at which the buffer fills or is drained",
  "The tests use one 4 KB buffer that never fills.",
  ["json/json_serializer.cpp", "json/json_serializer.h"],
  [("size calculation before writing", "Serializer::CalculateStrSize and the Append functions")])
p("C23", "File reads, writes and seeks follow a byte-array model, even under faults",
  "An open file behaves as an array of bytes with a position: reads return the stored bytes at the position, writes store all their bytes there (or at the end when appending), both report the exact count and advance the position by it, seeking moves it as asked within the file's bounds, and size and position queries agree with the file, and flushing a writable file has the system commit it. Interrupted or partial system calls are continued without losing, repeating or corrupting bytes, and on a hard error the call fails with the count actually transferred and a position that still agrees with it.",
  ["histories", "inputs", "fault_sequences"], "every sequence of open (any mode), read, write, seek, lock, truncate and close, with interruptions, short transfers and errors at any system call",
  "The tests write one line to one file; no read, seek, interruption or error occurs.",
  ["utf8/utf8_file_dir.cpp", "utf8/utf8_file_dir.h"],
  [("position tracking around read/write loops", "UTF8::File::Read/Write/Seek")])
p("C24", "Copying, moving, loading and reading by line preserve content exactly",
  "After a successful copy the target has exactly the source's bytes, permission bits, modification time and, where permitted, owner and group (whatever it held before) and the source is untouched; after a successful move the content is at the target and no longer at the source; loading a whole file yields exactly its bytes; reading line by line yields each line of the file, complete whatever its length, in order (zero bytes as spaces). When a read, write or open fails on the way, the operation reports failure, and it never reports success with different content.",
  ["inputs", "fault_sequences"], "every file size and content, existing target or not, and system call failures at any point",
  "The tests copy one 41-byte file without comparing the result, and never load a file or read lines.",
  ["utf8/utf8_file_dir.cpp", "utf8/utf8_file_dir.h"],
  [("chunked copy", "UTF8::File::Copy"), ("whole-file and line readers", "File::LoadEntireFile, File::LineInput")])
p("C25", "Path functions normalise correctly and stay within their buffer",
  "Turning a path into an absolute, normalised one yields the path that standard lexical rules give for the base and the path (repeated separators, '.' and '..' resolved, never above the root), is idempotent, and fails rather than overflow or cut off when the buffer is too small. File-name validation accepts every well-formed name including non-ASCII UTF-8 (a backslash means a slash) and refuses control characters, the wildcards and quotes other platforms forbid, and malformed UTF-8; existence, real-path, link and name-splitting queries return terminated strings that agree with the file system.",
  ["inputs"], "every base, path, mix of separators and dot components, characters, and buffer size",
  "The tests normalise one plain file name.",
  ["utf8/utf8_file_dir.cpp"],
  [("component stack normaliser", "File::GetAbsoluteFilename"), ("name filter", "File::GetPlatformFilename"), ("link and real path", "File::Realpath/Readlink")])
p("C26", "Directory operations list every entry and touch nothing outside the tree",
  "Reading a directory returns every entry exactly once with its exact name (or refuses one that does not fit); recursive creation makes every missing level, non-recursive variants affect one level only, and creating what exists fails. Recursive removal removes the whole named tree, whatever the names in it, and nothing outside it: symbolic links are removed, never followed, the root is never removed, and if anything cannot be removed the call reports failure.",
  ["inputs", "histories", "fault_sequences"], "every tree shape, entry name and link, with failures of individual system calls",
  "The tests create and remove one three-level chain without links or files.",
  ["utf8/utf8_file_dir.cpp"],
  [("readdir loop", "UTF8::Dir::Read"), ("recursive mkdir and rmdir", "Dir::Mkdir, Dir::Rmdir")])
p("C27", "Random bytes fill the whole request, integers stay in range, failure is reported",
  "A successful request for n random bytes fills every one of the n bytes from the system's secure source, however the source splits or interrupts the transfer, and the crypto-safe variant uses no other source; a random integer lies within the given inclusive range (bounds in either order), and every value is reachable without bias. When the source is missing, fails or ends, the call returns failure in bounded time instead of looping or returning unfilled bytes, and no descriptor is leaked.",
  ["inputs", "fault_sequences"], "every request size and range, every split of the source's reads, and failures at any point",
  "The tests draw 4 KB once and 1000 integers of one range from a healthy source.",
  ["security/security_csprng.cpp", "security/security_csprng.h"],
  [("read loop", "CSPRNG::GetBytes"), ("masked rejection sampling", "CSPRNG::GetInteger")])
p("C28", "Application paths are terminated, within the buffer, and correct for any setting",
  "Queries for the executable's file name and directory and for the system, per-user and temporary storage directories return the right NUL-terminated path for the current environment, with its length reported, or fail when it does not fit - never a path that is cut off. For every buffer size and every value of the environment (missing, empty, long, with or without trailing separators, no user entry) nothing outside the buffer is read or written. Queries for the process, the thread and the time answer for the caller at that moment, in every thread and child process.",
  ["inputs", "configurations"], "every buffer size, application name, home directory setting and way of starting the program",
  "The tests use a 1 KB buffer and the ambient environment.",
  ["utf8/utf8_appinfo.cpp", "environment/environment_appinfo.cpp"],
  [("bounded copies", "UTF8::AppInfo::Get*")])
p("C29", "Shared library calls reach the named function and fail cleanly when it is absent",
  "A call through a loaded module passes its arguments to the named function of that library and yields its return value (or runs it, when it returns nothing), exactly once per call; calling through a missing library or symbol fails without running anything or touching the result. Modules and functions may be created, used and destroyed in any order without a crash; the library stays loaded while a module uses it and is unloaded with the last one, and a library called into by file name stays loaded with its state.",
  ["inputs", "histories"], "every library, symbol, argument list and order of construction, call and destruction",
  "The tests call one function returning a double, without checking its value.",
  ["templates/shared_lib.h", "templates/shared_lib_util.h"],
  [("dlopen/dlsym wrappers", "SharedLib::ModuleUtil/FunctionUtil, Call*")])
p("C30", "Opening honours share modes, and a failed open changes nothing",
  "An open succeeds exactly when the requested access and creation flags and the share mode are compatible with the file system and with the other handles that have the file open; when it fails the object is closed and can be reused, no descriptor or lock remains, and an existing file keeps its content. A file that the open creates gets the permission bits asked for, less the umask. A file opened with an exclusive share mode cannot be opened through another handle until it is closed, closing or destroying releases everything (no program started meanwhile keeps it), and reads and writes are confined to the access asked for. Changing a file's times, mode, owner or group changes exactly the attribute asked for and keeps the others.",
  ["histories", "configurations", "fault_sequences"], "every combination of flags, share modes and handles, and every order of open, use, close and destruction",
  "The tests open one file once with default sharing.",
  ["utf8/utf8_file_dir.cpp", "utf8/utf8_file_dir.h"],
  [("flock after open", "File::Open/Close"), ("metadata setters", "File::SetFileTimes/Chmod/Chown/Chgrp")])
p("C31", "Synchronization objects are free of data races and memory errors in legal use",
  "Any legal multi-threaded use of the synchronization objects and the thread allocator - many threads sharing one handle, or each its own - performs no unsynchronised conflicting memory access, no access outside or after the life of its memory, no undefined behaviour, and no misuse of the operating system's locks (unlocking what is not held, destroying what is in use, sharing process-private locks between processes). "
  "Data written before a release is visible to whoever acquires next.",
  ["schedules", "histories"], "every interleaving of legal calls on shared handles by threads and processes",
  "The tests are single-threaded and built without sanitizers.",
  ["sync/sync_util.cpp", "sync/sync_mutex.cpp", "sync/sync_event.cpp", "sync/sync_semaphore.cpp", "sync/sync_readwritelock.cpp", "sync/sync_tls.cpp"],
  [("internal pthread mutexes around all shared fields", "sync/")])
p("C32", "Hash keys are a pure function of the key bytes and the secret",
  "Hashing a key gives the same value for the same bytes whatever their address or surroundings, reads exactly the given bytes and depends on each of them, and the keyed variant equals the published SipHash-c-d function of the key bytes and the 128-bit secret. Tables built with different secrets or hash modes answer every lookup identically.",
  ["inputs"], "every byte string, length, alignment, secret and round count",
  "The tests never look at a hash value.",
  ["templates/detachable_ordered_hash.cpp", "templates/packed_ordered_hash.cpp", "templates/cache.cpp"],
  [("djb2 and SipHash", "OrderedHashUtil/PackedOrderedHashUtil::GetSipHashKey, GetDJBX33XHashKey, CacheUtil::GetHashKey")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
