"""What each check builds and runs."""

_COMMON = ["-g", "-fno-omit-frame-pointer", "-w"]
_ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=all"]
FLAVOURS = {
    # The library on the fiber scheduler: every pthread/time/shm call and memory access is a scheduling point.
    "vs": {"cxx": "clang++",
           "repo_flags": ["-std=c++11", "-O1"] + _COMMON + _ASAN + ["-fsanitize-coverage=bb,trace-loads,trace-stores"],
           "flags": ["-std=c++17", "-O1"] + _COMMON + _ASAN, "libs": ["-lpthread"]},
    "asan": {"cxx": "clang++",
             "repo_flags": ["-std=c++11", "-O1"] + _COMMON + _ASAN,
             "flags": ["-std=c++17", "-O1"] + _COMMON + _ASAN, "libs": ["-lpthread", "-ldl", "-lrt"]},
    "tsan": {"cxx": "clang++",
             "repo_flags": ["-std=c++11", "-O1"] + _COMMON + ["-fsanitize=thread"],
             "flags": ["-std=c++17", "-O1"] + _COMMON + ["-fsanitize=thread"], "libs": ["-lpthread", "-ldl", "-lrt"]},
    "plain": {"cxx": "g++",
              "repo_flags": ["-std=c++11", "-O3"] + _COMMON,
              "flags": ["-std=c++17", "-O2"] + _COMMON, "libs": ["-lpthread", "-ldl", "-lrt"]},
}
SYNC = ["sync/sync_util.cpp", "sync/sync_mutex.cpp", "sync/sync_event.cpp", "sync/sync_semaphore.cpp", "sync/sync_readwritelock.cpp", "sync/sync_sharedmem.cpp"]
_VS_ASSUME = ["the fiber scheduler's pthread, clock and shared memory stand-ins implement POSIX semantics",
              "schedules are sampled (random and priority-based), not enumerated"]


QUICK = 3       # the quick counts below are thirds of what is run


def vs(name, quick, thorough, **kw):
    d = {"name": name, "flavour": "vs", "repo": SYNC, "harness": [name + ".cpp", "vsched.cpp"], "syms": "vs_syms.txt",
         "cases": {"quick": QUICK * quick, "thorough": thorough}}
    d.update(kw)
    return d


def asan(name, repo, quick, thorough, **kw):
    d = {"name": name, "flavour": "asan", "repo": repo, "harness": [name + ".cpp"], "cases": {"quick": QUICK * quick, "thorough": thorough}}
    d.update(kw)
    return d


def real(mode, quick, thorough, flavour="plain", **kw):
    """Real threads and forked processes on the kernel's own objects."""
    d = {"name": "d_real_" + mode, "flavour": flavour, "repo": SYNC + ["sync/sync_tls.cpp"], "harness": ["d_real.cpp"], "syms": "real_syms.txt",
         "cases": {"quick": quick, "thorough": thorough}, "env": {"VF_MODE": mode}, "shm": True, "case_timeout": 100}
    d.update(kw)
    return d


# What a driver shared with another property may report under C31.
_RACES = (r"data-race|unlock-not-owner|uninitialised-lock|destroy-held-lock|lock-destroyed|private-lock-shared|reinit-held-lock|cond-wait-unlocked"
          r"|munmap|map-past-end|close-wrong|shm-size|Sanitizer|ubsan|crash|lost-update")


def race(name, quick, thorough):
    return vs(name, quick, thorough, env={"VERIF_RACE": "1"}, only=_RACES)


_SEQ_ASSUME = ["operation sequences and inputs are sampled with a bias to boundaries, not enumerated"]
FILES = ["utf8/utf8_file_dir.cpp", "utf8/utf8_util.cpp"]
_IO_ASSUME = _SEQ_ASSUME + ["injected system call results are ones POSIX allows"]
TLS = ["sync/sync_util.cpp", "sync/sync_tls.cpp"]
CHECKS = {
    "C01": {"drivers": [vs("d_mutex", 150000, 3000000), real("mutex", 1500, 40000)], "assumptions": _VS_ASSUME,
            "technique": "linearizability and liveness monitoring of controlled schedules (fiber scheduler, ASan/UBSan)",
            "rule": "a trial is a random program of 2-4 threads/processes over 1-2 mutexes under one schedule; non-trivial if calls on one mutex overlapped; distinct by the sequence of scheduling choices"},
    "C02": {"drivers": [vs("d_sem", 180000, 3500000), real("sem", 1500, 40000)], "assumptions": _VS_ASSUME,
            "technique": "linearizability and liveness monitoring of controlled schedules (fiber scheduler, ASan/UBSan)",
            "rule": "a trial is a random program of 2-4 threads/processes over semaphores under one schedule; non-trivial if calls overlapped; distinct by the sequence of scheduling choices"},
    "C03": {"drivers": [vs("d_event", 200000, 4000000), real("event", 1500, 40000)], "assumptions": _VS_ASSUME,
            "technique": "linearizability and liveness monitoring of controlled schedules (fiber scheduler, ASan/UBSan)",
            "rule": "a trial is a random program of 2-5 threads/processes over events under one schedule; non-trivial if calls overlapped; distinct by the sequence of scheduling choices"},
    "C04": {"drivers": [vs("d_rw", 150000, 3000000), real("rw", 1500, 40000)], "assumptions": _VS_ASSUME,
            "technique": "exclusion, overtaking and liveness monitoring of controlled schedules (fiber scheduler, ASan/UBSan)",
            "rule": "a trial is a random program of 2-4 threads/processes over read/write locks under one schedule; non-trivial if calls overlapped; distinct by the sequence of scheduling choices"},
    "C05": {"drivers": [vs("d_timed", 400000, 8000000)], "assumptions": _VS_ASSUME,
            "technique": "timing monitor over virtual time with injected clock and wait faults (fiber scheduler, ASan/UBSan)",
            "rule": "a trial is one timed call contended by others, with or without injected faults, in virtual time; non-trivial if the call had to wait; distinct by the sequence of scheduling choices"},
    "C06": {"drivers": [vs("d_named", 80000, 1500000), vs("d_shm", 20000, 300000), real("named", 1500, 40000)], "assumptions": _VS_ASSUME,
            "technique": "lifetime monitoring of emulated shared memory under controlled schedules (fiber scheduler, ASan/UBSan)",
            "rule": "a trial is a random history of opens, uses and closes of named objects by several threads/processes under one schedule; non-trivial if one name was opened more than once; distinct by the sequence of scheduling choices"},
    "C07": {"drivers": [vs("d_shm", 60000, 1200000), real("shm", 1500, 40000)], "assumptions": _VS_ASSUME,
            "technique": "content and lifetime monitoring of emulated shared memory under controlled schedules (fiber scheduler, ASan/UBSan)",
            "rule": "a trial is a random history of opens, writes, reads and closes of shared memory blocks under one schedule; non-trivial if one name was opened more than once; distinct by the sequence of scheduling choices"},
    "C08": {"drivers": [asan("d_tls", TLS, 16000, 400000, syms="tls_syms.txt")], "assumptions": _SEQ_ASSUME,
            "technique": "shadow-model monitoring of random allocation histories with injected allocation failures (ASan/UBSan, allocator hooks)",
            "rule": "a trial is a random history of allocations, resizes, duplicates and frees by 1-4 threads over 1-2 allocators; non-trivial if something was resized; distinct by the history"},
    "C09": {"drivers": [asan("d_ohash", ["templates/detachable_ordered_hash.cpp"], 60000, 1500000)], "assumptions": _SEQ_ASSUME,
            "technique": "shadow-model monitoring of random operation histories (ASan/UBSan, allocator hooks)",
            "rule": "a trial is a random history of inserts, finds, detaches, moves, rehashes and copies over 1-3 tables; non-trivial if a key was hit again after insertion; distinct by the history"},
    "C10": {"drivers": [asan("d_phash", ["templates/packed_ordered_hash.cpp"], 24000, 600000)], "assumptions": _SEQ_ASSUME,
            "technique": "shadow-model monitoring of random operation histories (ASan/UBSan, allocator hooks)",
            "rule": "a trial is a random history of sets, gets, unsets, growth, rehashes and copies over 1-2 tables; non-trivial if a key was hit again after insertion; distinct by the history"},
    "C11": {"drivers": [asan("d_list", [], 200000, 4000000)], "assumptions": _SEQ_ASSUME,
            "technique": "shadow-model monitoring of random operation histories (ASan/UBSan, allocator hooks)",
            "rule": "a trial is a random history of pushes, pops, inserts, detaches, splices and copies over lists and queues; non-trivial if nodes were removed; distinct by the history"},
    "C12": {"drivers": [asan("d_cache", ["templates/cache.cpp"], 40000, 1000000)], "assumptions": _SEQ_ASSUME,
            "technique": "shadow-model monitoring of random operation histories (ASan/UBSan, allocator hooks)",
            "rule": "a trial is a random history over a cache, vectors and 2D arrays; non-trivial if something was read back after a write; distinct by the history"},
    "C13": {"drivers": [asan("d_find", [], 150000, 3500000)], "assumptions": _SEQ_ASSUME,
            "technique": "differential monitoring against a naive scan over exact-size buffers (ASan/UBSan)",
            "rule": "a trial is a haystack and needles over one alphabet and element type, searched by every strategy; non-trivial if something matched; distinct by the inputs"},
    "C14": {"drivers": [asan("d_replace", [], 200000, 5000000)], "assumptions": _SEQ_ASSUME,
            "technique": "differential monitoring against naive replacement over exact-size buffers (ASan/UBSan, allocator hooks)",
            "rule": "a trial is a text, needle, replacement, limit and capacity through each variant; non-trivial if something was replaced; distinct by the inputs"},
    "C15": {"drivers": [asan("d_int", ["convert/convert_int.cpp", "sync/sync_util.cpp", "sync/sync_tls.cpp", "json/json_serializer.cpp"], 400000, 10000000)], "assumptions": _SEQ_ASSUME,
            "technique": "differential monitoring against exact arithmetic over exact-size buffers (ASan/UBSan)",
            "rule": "a trial is several values biased to powers and extremes, with radix, separator and buffer size, through each conversion; non-trivial if one converted; distinct by the inputs"},
    "C16": {"drivers": [asan("d_fsize", ["convert/convert_int.cpp"], 150000, 3500000)], "assumptions": _SEQ_ASSUME,
            "technique": "differential monitoring against exact arithmetic over exact-size buffers (ASan/UBSan)",
            "rule": "a trial is several sizes biased to unit boundaries, with digits, separators and buffer size; non-trivial if one converted; distinct by the inputs"},
    "C17": {"drivers": [asan("d_utf", ["utf8/utf8_util.cpp"], 250000, 6000000)], "assumptions": _SEQ_ASSUME,
            "technique": "differential monitoring against a reference codec over exact-size buffers (ASan/UBSan)",
            "rule": "a trial is several texts, valid or damaged, converted in each direction with any capacity; non-trivial if a character converted; distinct by the inputs"},
    "C18": {"drivers": [asan("d_uscan", ["utf8/utf8_util.cpp"], 400000, 9000000)], "assumptions": _SEQ_ASSUME,
            "technique": "differential monitoring against a reference decoder over exact-size buffers (ASan/UBSan)",
            "rule": "a trial is several byte strings, valid or damaged, scanned by each function; non-trivial if a character was found; distinct by the inputs"},
    "C19": {"drivers": [asan("d_smv", ["utf8/utf8_util.cpp"], 80000, 2000000)], "assumptions": _SEQ_ASSUME,
            "technique": "shadow-model monitoring of random operation histories (ASan/UBSan)",
            "rule": "a trial is a random history of string operations around the capacity of fixed-capacity variants; non-trivial if a string operation took effect; distinct by the history"},
    "C20": {"drivers": [asan("d_tmv", TLS, 60000, 1500000)], "assumptions": _SEQ_ASSUME,
            "technique": "shadow-model monitoring of random operation histories (ASan/UBSan, allocator hooks)",
            "rule": "a trial is a random history of string operations, copies and assignments over several variants; non-trivial if a string operation took effect; distinct by the history"},
    "C21": {"drivers": [asan("d_json", ["json/json_serializer.cpp"], 200000, 5000000)], "assumptions": _SEQ_ASSUME,
            "technique": "round-trip monitoring against a document model and a strict parser (ASan/UBSan)",
            "rule": "a trial is a random sequence of calls building a document with hostile keys, strings and numbers, parsed back; non-trivial if a value was accepted; distinct by the calls"},
    "C22": {"drivers": [asan("d_jbuf", ["json/json_serializer.cpp"], 200000, 5000000)], "assumptions": _SEQ_ASSUME,
            "technique": "differential monitoring of small drained buffers against one large buffer (ASan/UBSan, exact-size buffers)",
            "rule": "a trial is one sequence of calls on a large buffer and on small ones drained whenever full; non-trivial if something was accepted; distinct by the calls and sizes"},
    "C23": {"drivers": [asan("d_file", FILES, 200000, 2500000, syms="file_syms.txt", shm=True)], "assumptions": _IO_ASSUME,
            "technique": "shadow-model monitoring of file histories with injected system call faults (ASan/UBSan)",
            "rule": "a trial is a random history of reads, writes and seeks on one file with interrupted, partial and failing system calls; non-trivial if data moved; distinct by the history"},
    "C24": {"drivers": [asan("d_copy", FILES, 120000, 1500000, syms="file_syms.txt", shm=True)], "assumptions": _IO_ASSUME,
            "technique": "content monitoring of copies, moves, loads and line reads with injected system call faults (ASan/UBSan, descriptor monitor)",
            "rule": "a trial is a file content and target state, copied, moved, loaded or read by line with or without faults; non-trivial if the operation succeeded; distinct by the inputs and faults"},
    "C25": {"drivers": [asan("d_path", FILES, 120000, 1500000, syms="file_syms.txt", shm=True)], "assumptions": _IO_ASSUME,
            "technique": "differential monitoring against a lexical path model and the file system over exact-size buffers (ASan/UBSan)",
            "rule": "a trial is several bases, paths, names and buffer sizes through each path function; non-trivial if a path resolved; distinct by the inputs"},
    "C26": {"drivers": [asan("d_dir", FILES, 80000, 600000, syms="file_syms.txt", shm=True)], "assumptions": _IO_ASSUME,
            "technique": "tree-model monitoring with a guard on every changing system call and injected faults (ASan/UBSan)",
            "rule": "a trial is a random tree with links and unusual names that is listed, extended and removed, with or without faults; non-trivial if something was listed or removed; distinct by the tree and faults"},
    "C27": {"drivers": [asan("d_rand", ["security/security_csprng.cpp"], 200000, 5000000, syms="rnd_syms.txt")], "assumptions": _IO_ASSUME,
            "technique": "provenance and distribution monitoring over a stand-in random source with injected faults (ASan/UBSan)",
            "rule": "a trial is a source that splits, interrupts, fails or ends, and a series of requests; non-trivial if one was filled or a failure reported; distinct by the requests and reads"},
    "C28": {"drivers": [asan("d_app", ["utf8/utf8_appinfo.cpp", "environment/environment_appinfo.cpp", "utf8/utf8_util.cpp"], 150000, 3000000, syms="app_syms.txt", shm=True)], "assumptions": _IO_ASSUME,
            "technique": "differential monitoring against a path model over exact-size buffers and hostile environments (ASan/UBSan)",
            "rule": "a trial is an environment, application name, executable and buffer sizes through each query; distinct by the inputs"},
    "C29": {"drivers": [asan("d_lib", [], 100000, 2000000, shm=True, libs=["-rdynamic"],
                             aux=[["clang++", "-O1", "-shared", "-fPIC", "-w", "{harness}/lib_test.cpp", "-o", "{dir}/lib_test.so"]])], "assumptions": _SEQ_ASSUME,
            "technique": "call monitoring inside a test library (ASan/UBSan)",
            "rule": "a trial is a random history of modules, functions, calls and destructions; non-trivial if a call reached its function; distinct by the history"},
    "C30": {"drivers": [asan("d_open", FILES, 80000, 2000000, syms="file_syms.txt", shm=True)], "assumptions": _IO_ASSUME,
            "technique": "lock, descriptor and attribute monitoring of random histories with injected faults (ASan/UBSan, independent lock probes)",
            "rule": "a trial is a random history of opens and closes of several handles on several files, or of attribute changes; non-trivial if an open succeeded; distinct by the history"},
    "C31": {"drivers": [race("d_mutex", 30000, 800000), race("d_sem", 30000, 800000), race("d_event", 30000, 800000), race("d_rw", 30000, 800000),
                        race("d_named", 20000, 500000), race("d_shm", 20000, 500000), race("d_timed", 40000, 1000000),
                        real("all", 500, 20000, flavour="tsan", env={"VF_MODE": "all", "VF_THREADS": "1"}, only=_RACES)],
            "assumptions": _VS_ASSUME + ["the one-byte creation flag of a named block is a publication handshake, not plain data"],
            "technique": "happens-before race detection and lock-misuse monitoring of controlled schedules; ThreadSanitizer on real threads; ASan/UBSan",
            "rule": "a trial is a workload of C01-C07 with every library memory access checked for happens-before, or a run of real threads under ThreadSanitizer; distinct by the sequence of scheduling choices"},
    "C32": {"drivers": [asan("d_hash", ["templates/detachable_ordered_hash.cpp", "templates/packed_ordered_hash.cpp", "templates/cache.cpp"], 300000, 8000000)], "assumptions": _SEQ_ASSUME,
            "technique": "differential monitoring against a reference SipHash over exact-size buffers (ASan/UBSan)",
            "rule": "a trial is several keys, secrets and places, and tables side by side; distinct by the inputs"},
}
