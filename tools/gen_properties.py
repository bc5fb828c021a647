import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],**({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {}),"observe_at":observe or [],"hook_needed":hook}})
H="h_malloc.c"
p("C01","Live blocks are usable, disjoint and keep their contents",
"Every successful allocation, from any entry point and whatever was allocated and freed before, returns a block that is readable and writable over its whole reported usable size, which is at least the requested size. No two live blocks overlap, and the bytes of a live block never change until its owner writes, reallocates or frees it.",
["histories","inputs","configurations"],"all single-threaded histories of allocation, reallocation, trim, query and free operations over all request sizes, in every shipped configuration and option variant",
"The existing tests make one or two allocations each; none checks that two live blocks stay apart or keep their contents over a long mixed history.",
[H,"pages.c","memory.c"],[("slot selection and used bitmap",H+": get_free_slot/set_used_slot"),("slab lists",H+": allocate_small/deallocate_small"),("large mappings",H+": allocate_large; pages.c: allocate_pages")],
["malloc, calloc, realloc, memalign, posix_memalign, aligned_alloc, valloc, pvalloc, free, malloc_usable_size"])
p("C02","Alignment requests are honoured or rejected exactly",
"Every non-zero-size block is aligned to at least 16 bytes, and every block obtained through an aligned entry point (including zero-size requests) is aligned to the requested power of two; valloc and pvalloc return page-aligned blocks and pvalloc's block covers the size rounded up to a page. An alignment that is not a power of two (or, for posix_memalign, is below the pointer size) is rejected with EINVAL, and a failing posix_memalign leaves the caller's pointer unmodified.",
["inputs","histories"],"all (alignment, size) pairs including alignments above the page size, non-powers of two, zero and huge values, after any history",
"No existing test calls an aligned allocation function.",
[H,"pages.c"],[("alignment validation and class choice",H+": allocate_aligned, get_size_info_align"),("over-page alignment","pages.c: allocate_pages_aligned")],["posix_memalign, aligned_alloc, memalign, valloc, pvalloc"])
p("C03","realloc preserves contents and ownership across every size transition",
"A successful realloc returns a block whose first min(old requested size, new size) bytes equal the old block's, for every pair of old and new sizes, for blocks obtained from any entry point and for any move strategy; the old address is then released exactly once unless it is the one returned. realloc of a null pointer allocates, and a realloc that fails returns null and leaves the old block allocated with size and contents unchanged.",
["inputs","histories","fault_sequences"],"all (old size, new size, entry point of the old block) transitions: small, large, in-place shrink, copy, page-remap move, over-aligned blocks, with failures injected",
"realloc_init covers one small size pair; large_array_growth is not run by the suite.",
[H,"memory.c"],[("realloc strategies",H+": h_realloc"),("page move","memory.c: memory_remap_fixed")],["realloc"])
p("C04","Fresh memory is always zero",
"With zero-on-free enabled (both shipped configurations), every newly allocated block reads as zero over its whole usable size whichever entry point produced it and whatever previously occupied the memory, and so do the bytes gained when a realloc moves or grows a large block. calloc returns zeroed memory for the requested size in every configuration, including with zero-on-free disabled.",
["histories","inputs","configurations"],"all histories that dirty, free and reuse memory; all sizes; every configuration",
"The tests read only a fresh process' first 256 KiB-or-less blocks; reuse after dirtying is never checked.",
[H],[("zero on free",H+": deallocate_small memset"),("calloc clearing",H+": h_calloc"),("fresh pages","memory.c: memory_map_fixed, memory_purge")],["malloc, calloc, realloc and aligned entry points"])
p("C05","Impossible or overflowing requests fail cleanly with ENOMEM",
"A request whose size (or count times size, or size plus alignment, rounding and guards) cannot be represented or mapped returns null (posix_memalign returns ENOMEM) with errno set to ENOMEM, never a smaller block. The heap is unaffected: existing blocks stay intact and later satisfiable requests succeed, including after a size class's reserved region or the large-allocation table has been exhausted and blocks were freed again.",
["inputs","histories","configurations"],"all sizes, counts and alignments up to SIZE_MAX; exhaustion of size class regions and of the region table in small configurations",
"impossibly_large_malloc tries one size on malloc only; calloc overflow, realloc, aligned overflow and region exhaustion are untested.",
[H,"pages.c"],[("overflow checks",H+": h_calloc, get_large_size_class; pages.c: add_guards, allocate_pages_aligned"),("region limits",H+": alloc_metadata, regions_grow")],["all allocation entry points, errno"])
p("C06","Zero-size allocations are distinct, inaccessible and freeable",
"malloc(0), calloc with a zero product, realloc(p, 0) and 16-byte-or-less aligned zero-size requests return non-null pointers distinct from every other live block; their usable size and object size are 0 and the memory is neither readable nor writable. They can be freed, reallocated and queried in any order and number like any other block.",
["histories","inputs"],"any number of live zero-size blocks interleaved with other operations, frees in any order, realloc to and from zero",
"Tests read or write one zero-size block; they never hold several slabs of them or query or realloc them.",
[H],[("dedicated class 0 never unprotected",H+": alloc_metadata(non_zero_size), allocate_small"),("slot arithmetic with size 16",H+": deallocate_small, h_malloc_object_size")],["malloc(0), malloc_usable_size, malloc_object_size"])
p("C07","Size queries return sound bounds",
"malloc_usable_size of a live block is at least the requested size, constant over the block's life and fully usable; for an interior pointer p+k of a live small block, malloc_object_size returns exactly usable size minus k (0 for a pointer past it, into the canary), and for the start of a large block its usable size. For every other pointer not owned by the allocator both object-size queries return SIZE_MAX, for null they return 0; malloc_object_size_fast is an upper bound on the usable size of the block, takes no lock and needs no allocator state to be unlocked.",
["inputs","histories"],"all block sizes, all interior offsets, foreign and null pointers, after any history including thousands of live blocks",
"Tests query one 16-byte block at offsets 0 and 5.",
[H],[("usable size",H+": h_malloc_usable_size, slab_usable_size"),("object size",H+": h_malloc_object_size, h_malloc_object_size_fast")],["malloc_usable_size, malloc_object_size, malloc_object_size_fast"])
p("C08","Rounding follows the documented size classes",
"A plain allocation's usable size is exactly the smallest documented size class that holds the request (plus the canary when enabled) for small requests, and for large ones the next of four classes per power of two (or the next page multiple when large size classes are disabled). Hence usable size is monotone in the request and rounding waste stays below 20% for requests above 64 bytes (canary and page minimum aside).",
["inputs","configurations"],"every request size: exhaustively through the small range, all class boundaries and random large sizes; all size-class configurations",
"Tests look at two sizes; the rounding function is quantified over all sizes.",
[H,"util.h"],[("size class computation",H+": get_size_info, get_large_size_class, size_classes")],["malloc_usable_size"])
p("C09","Every invalid free is detected and aborts",
"free (and the sized variant) of a pointer that is not the start of a live block, namely already freed (whether quarantined, released, purged or unmapped), interior or misaligned, in never-used slab space, or foreign to the allocator, terminates the process with a fatal allocator error before returning, deterministically and after any history. This holds for small, zero-size and large blocks and however much time or how many operations passed since a double-freed block was first freed, as long as its address has not been handed out again.",
["histories","inputs"],"all pointers that are not live block starts, in all reachable heap states (after quarantine rotation, slab purge, table growth, realloc moves and shrinks)",
"About ten tests each try one pointer in a nearly empty heap; delayed double frees after real churn, table growth or shrink are not reached.",
[H],[("slot and bitmap validation",H+": deallocate_small, get_metadata"),("large lookup",H+": regions_find, deallocate_large")],["free, free_sized: process termination"])
p("C10","Size queries and realloc of invalid pointers abort",
"malloc_usable_size of any non-null pointer that is not the start of a live block terminates the process with a fatal allocator error, as does malloc_object_size of a pointer into a freed or never-allocated small slot. realloc of a pointer that is not a live block start terminates the process (by a fatal allocator error, or by a fault if it first touches inaccessible memory) whenever it would have to move, resize or release the block. No such call ever returns a value or pointer to the caller.",
["histories","inputs"],"all invalid pointers (freed, quarantined, interior, unused slots, foreign) in all reachable heap states",
"Each test tries one pointer right after one allocation.",
[H],[("validation on query",H+": memory_corruption_check_small, h_malloc_object_size"),("realloc lookup",H+": h_realloc")],["malloc_usable_size, malloc_object_size, realloc: process termination"])
p("C11","Sized deallocation accepts the right size and aborts on a wrong class",
"free_sized(p, n) and the C++ sized operator delete accept every block allocated with that size (through any entry point whose C++ counterpart passes it, including over-aligned new) and release it exactly as free does. If n belongs to a different size class than the one the block was allocated from, the process terminates with a fatal allocator error; this holds for every small, zero and large size and for sizes up to SIZE_MAX.",
["inputs","histories"],"all (allocated size, alignment, passed size) combinations",
"One test deletes one object with one wrong small size; matching sizes, large sizes and aligned deletes are untested.",
[H,"new.cc"],[("size check",H+": h_free_sized, deallocate_small, deallocate_large"),("operators","new.cc: sized operator delete")],["free_sized, operator delete(void*, size_t[, align_val_t])"])
p("C12","Small overflows are absorbed and detected by canaries",
"With canaries enabled, changing any of the 8 bytes that follow a small block's usable size is detected as a fatal allocator error when that block is freed, moved by realloc or queried with malloc_usable_size, whatever history the slot has. The first of these bytes is zero, so an unterminated string stops there, and writing them never alters another block.",
["inputs","histories","configurations"],"all small size classes, all 8 canary byte positions and changed values, new and reused slots, all canary configurations",
"Tests corrupt the canary of one 8-byte block twice.",
[H],[("canary write and check",H+": set_canary, check_canary, set_slab_canary_value")],["free, realloc, malloc_usable_size: process termination; block contents"])
p("C13","Writes after free to small blocks are detected on reuse",
"With the write-after-free check enabled, if any byte of a freed small block's former usable area is made non-zero while its slab stays mapped, the process terminates with a fatal allocator error no later than the allocation that hands that slot out again. It never hands out the dirtied slot.",
["histories","inputs"],"all size classes, all byte positions and values, any delay between free, write and reuse",
"Two tests dirty one byte of one class.",
[H],[("zero check",H+": write_after_free_check in allocate_small")],["malloc family: process termination"])
p("C14","Correct programs are never aborted or refused",
"A program that uses the allocation API correctly, in any order, size and alignment mix and in any valid build configuration, never triggers a fatal allocator error, a crash inside the allocator, a hang, or a spurious null return while address space is available.",
["programs","histories","configurations"],"all correct API histories over every configuration option in its documented range (including quarantine, guard and cache lengths at their extremes)",
"The suite only runs the default configuration with tiny programs; most tests are about misuse.",
[H,"pages.c","memory.c","random.c","new.cc"],[("all consistency checks",H+": fatal_error call sites"),("configuration ranges",H+": static_assert block; Makefile")],["process exit status, return values"])
p("C15","Freed small data is erased immediately",
"With zero-on-free enabled, as soon as free, free_sized or a moving realloc returns, none of the bytes the program stored in the released small block remain readable at its old address: the slot's former usable area is all zero or inaccessible. Erasure covers the whole usable size for every size class and leaves every neighbouring live block untouched.",
["histories","inputs","configurations"],"all small size classes and release paths, any neighbour layout",
"read_after_free_small checks 16 bytes at the start of one block.",
[H],[("memset on free",H+": deallocate_small")],["memory contents after free"])
p("C16","Freed large blocks become inaccessible and their addresses are quarantined",
"As soon as a large block is freed, or its tail is cut off by a shrinking realloc, the released pages are neither readable nor writable and their old contents are gone. If the released size is below the quarantine threshold, that address range is not handed out again or unmapped until at least as many further quarantined releases as the configured queue length have happened, and the delay before it is unmapped is randomised by the configured random array.",
["histories","configurations"],"all sequences of large allocations, frees and shrinking reallocs, all quarantine length settings including zero",
"Tests free one block and read it; quarantine length, shrink tails and reuse are not observed.",
[H,"pages.c","memory.c"],[("region quarantine",H+": regions_quarantine_deallocate_pages"),("shrink",H+": h_realloc in-place shrink")],["accessibility of old addresses; munmap/mmap calls; later allocation addresses"],hook="interposed mmap/munmap (no source hook)")
p("C17","Large blocks are enclosed by inaccessible guard regions",
"Every live large block has, immediately before its first page and immediately after the last page of its usable size, at least one inaccessible page that belongs to no other block, through its whole life including over-aligned allocation, in-place shrink and page-remap growth. Guard sizes are random page multiples between one page and the usable size divided by the configured divisor.",
["histories","inputs","configurations"],"all large sizes, alignments and realloc transitions, all divisors",
"Two tests overflow one fresh block; guards before the block and after resize are unchecked.",
[H,"pages.c"],[("guard size",H+": get_guard_size"),("guard mapping","pages.c: allocate_pages, allocate_pages_aligned"),("shrink guard",H+": h_realloc")],["page accessibility around blocks"])
p("C18","Slabs are separated by guard slabs and unused space is inaccessible",
"Small blocks live in slabs of the documented slot count and page-rounded slab size, and after every run of the configured number of consecutive slabs at least one whole slab-sized span stays inaccessible forever. All slab address space that does not belong to an in-use or cached slab is neither readable nor writable.",
["histories","configurations"],"all allocation histories, guard intervals and size classes",
"No test looks beyond a block's own slot.",
[H],[("guard slab skipping",H+": alloc_metadata"),("PROT_NONE region",H+": init_slow_path")],["page accessibility around slabs"])
p("C19","Freed small blocks are held in quarantine before reuse",
"A freed small slot is not handed out again until at least the configured queue length (scaled by size class as documented), plus one when the random array is enabled, further frees have happened in the same size class and arena. The random array delays each release by a random amount over its full documented scaled length, and no freed slot is lost: every slot becomes available again after enough further frees.",
["histories","configurations"],"all free/allocate histories in all size classes, all quarantine length settings including zero for either part",
"Tests only see that an immediate second free is called quarantined.",
[H],[("random array and ring buffer",H+": deallocate_small SLAB_QUARANTINE")],["addresses returned by malloc versus the free history"])
p("C20","Empty slabs beyond the cache are purged, protected and recycled in order",
"Emptied slabs are cached only up to a small fixed total (128 KiB) per size class and arena; beyond it, and for all cached slabs on malloc_trim, their memory is returned to the system and becomes inaccessible at once, with malloc_trim returning non-zero exactly when it released something. A released slab is not used again until it has been displaced from the random array of the configured length, after which released slabs are reused first-in first-out before never-used slabs.",
["histories","configurations"],"all histories that empty slabs, with and without trim, all free-slab quarantine lengths",
"No test frees enough to empty more than one slab or calls malloc_trim.",
[H],[("empty cache limit",H+": deallocate_small empty_slabs_total"),("free slab queue",H+": enqueue_free_slab"),("trim",H+": h_malloc_trim")],["page accessibility, malloc_trim result, slab reuse order"])
p("C21","Size classes, arenas and large blocks never share address space",
"Throughout a process, an address that was ever part of a block of one small size class and arena is never part of a block of another size class, another arena or a large allocation. A thread's small allocations all come from one arena, threads are spread round-robin over all configured arenas, and distinct size classes and arenas occupy disjoint contiguous regions separated by inaccessible space.",
["histories","configurations","schedules"],"all histories across all size classes and threads, all arena counts",
"No test compares addresses of different classes or threads.",
[H],[("region layout",H+": init_slow_path, slab_size_class"),("arena assignment",H+": init")],["addresses returned per size and thread"])
p("C22","Allocator state is out of line, isolated and read-only where global",
"After initialisation no readable heap memory (live, freed or cached small slots, slab padding, large blocks) contains a pointer into allocator state, and the library's own writable globals contain no pointer to the heap or to allocator state. The pages holding the global state pointers are read-only, and the writable allocator state lies in its own mapping, apart from all blocks, enclosed by inaccessible random-size guard regions.",
["histories","configurations"],"all heap histories; every process initialisation",
"No test inspects memory protections or heap contents for metadata.",
[H],[("read-only globals",H+": ro, init_slow_path memory_protect_ro"),("state mapping",H+": struct allocator_state allocation")],["/proc/self/maps, memory contents"])
p("C23","With sealing enabled, allocator state is inaccessible outside the allocator",
"When metadata sealing is enabled, whenever any allocation API call has returned, on every path, thread and outcome, the calling thread's access to writable allocator state is disabled, including after fork in parent and child. Every API call still works in that mode, including calls that re-enter the allocator.",
["histories","programs","configurations"],"all API calls with all outcomes (success, failure, in-place and moving realloc, fork, stats output) in the sealed configuration",
"The sealed configuration is never built by the tests.",
[H,"memory.c"],[("unseal/seal pairing",H+": thread_unseal_metadata/thread_seal_metadata"),("pkey protection","memory.c: memory_protect_rw_metadata")],["protection key rights after each call"])
p("C24","Layout randomisation is present, uniform and independent per process",
"Class region bases, guard sizes, slot choice within slabs (the next free slot from a uniformly random start), canary values (7 random bytes, fresh per slab and renewed when a released slab is reused) and quarantine delays (uniformly random replacement) are all random: over processes and allocations each takes values across its whole documented range with the documented distribution and no fixed relation to another or to another process's. With slot randomisation disabled, the lowest free slot is used.",
["configurations","histories","inputs"],"all seeds delivered by the operating system, all size classes",
"The tests never compare two runs or look at a distribution.",
[H,"random.c"],[("random draws",H+": get_free_slot, set_slab_canary_value, get_guard_size, init_slow_path")],["addresses, guard sizes and canary bytes over many seeds"])
p("C25","The random generator is exact ChaCha8, unbiased and OS-seeded",
"The random stream equals the ChaCha8 keystream under the key and nonce obtained from the operating system, for every request pattern; bounded draws are exactly uniform over their range for every bound. Each generator reseeds from the operating system at least every 256 KiB of cached output, seeding tolerates interrupted and short reads, and if the system cannot provide randomness the process aborts rather than continue.",
["inputs","fault_sequences","histories"],"all keys, request size sequences, bounds and 64-bit counter values; all short-read and interruption patterns of the seeding call",
"Nothing in the suite exercises the generator directly.",
["random.c","chacha.c"],[("keystream","chacha.c: chacha_keystream_bytes"),("bounded draws","random.c: get_random_u16_uniform, get_random_u64_uniform"),("seeding","random.c: get_random_seed, refill")],["random.h functions, getrandom calls"])
p("C26","Out-of-memory in any system call is survived without damage",
"If any memory-mapping system call made by the allocator after initialisation fails with ENOMEM, at any point of any history, the affected allocation either succeeds by another route or reports failure (null with ENOMEM), free still succeeds, and no live block is lost, moved, overlapped or altered. Afterwards all operations and all invalid-free checks work as before, freed data is still erased, and once every block is freed no address space is lost except reservations whose own unmapping failed.",
["fault_sequences","histories"],"every single system-call failure position, and random sets of failures, in generated histories including table growth, slab purge, shrink and remap",
"The suite never makes a system call fail.",
[H,"pages.c","memory.c"],[("failure paths",H+": alloc_metadata, deallocate_small, regions_grow, h_realloc; pages.c")],["return values, errno, contents"],hook="interposed system-call wrappers (no source hook)")
p("C27","Unexpected kernel errors are fatal",
"If mmap, munmap, mprotect, mremap or madvise called by the allocator fails with an error other than ENOMEM, the process terminates with a fatal allocator error instead of continuing, at every call site.",
["fault_sequences"],"every call site and every non-ENOMEM errno in generated histories",
"The suite never makes a system call fail.",
["memory.c"],[("errno checks","memory.c: memory_map, memory_map_fixed, memory_unmap, memory_protect_prot, memory_remap_fixed, memory_purge")],["process termination under injected errors"])
p("C28","fork leaves both processes with a working, independent heap",
"After fork at any moment once the allocator is initialised, even while other threads are inside the allocator, the child can allocate, reallocate and free (including blocks allocated before the fork, whose contents it sees intact) without deadlock or false abort, and the parent continues unaffected. The child's random choices come from a fresh operating-system seed and are independent of the parent's and of its siblings'.",
["schedules","histories"],"all fork points relative to other threads' allocator activity, all heap histories",
"No test forks.",
[H],[("fork handlers",H+": full_lock, full_unlock, post_fork_child")],["child and parent behaviour, getrandom calls, address streams"])
p("C29","The allocator is safe under concurrency",
"For any number of threads allocating, reallocating, querying, trimming and freeing concurrently, including frees of blocks allocated by another thread, every guarantee on live blocks (disjointness, contents, zeroed fresh memory) holds, no data race occurs on allocator state, and no operation deadlocks.",
["schedules","programs"],"all thread programs and interleavings of allocator operations",
"Only realloc_init uses a second thread, sequentially.",
[H,"mutex.h"],[("per-class and region locks",H+": mutex_lock/mutex_unlock around state"),("read of region end",H+": get_slab_region_end")],["multi-threaded histories under ThreadSanitizer and under an owned schedule"])
p("C30","Statistics are exact",
"With statistics enabled, at any quiescent point mallinfo2 reports exactly the bytes of live blocks (size-class sizes plus large sizes) and of memory mapped for them, and malloc_info reports per arena and size class the exact number of allocations and frees, allocated bytes and slab bytes, plus total large bytes. The values never underflow, for blocks from any entry point and any realloc path.",
["histories","configurations"],"all histories over all entry points and sizes with statistics enabled",
"Statistics are off in the tested build and the printing programs are not run.",
[H],[("counters",H+": stats_small_allocate ... stats_large_deallocate, h_mallinfo2, h_malloc_info")],["mallinfo2, malloc_info"])
p("C31","Only the documented system calls are made",
"Whatever the history, the allocator makes only the system calls documented in the README with the documented arguments (anonymous private PROT_NONE mappings, read-only or read-write protection changes, no brk, no executable memory, getrandom without flags), so a seccomp filter built from that list never kills a correct program.",
["histories","programs"],"all single-threaded and multi-threaded API histories, both shipped configurations",
"No test filters or records system calls.",
["memory.c","random.c","util.c","README.md"],[("system call wrappers","memory.c, random.c, util.c")],["seccomp filter verdict in the shipped library"])
p("C32","C++ operators follow the standard's allocation contract",
"operator new in all its forms (array, nothrow, aligned) returns a block of the requested size and alignment or, when memory is exhausted, repeatedly calls the installed new-handler and retries until it succeeds, the handler is removed, or the handler throws; it then throws std::bad_alloc, or returns null in the nothrow forms. Every delete form releases blocks of the matching new form, and null is accepted.",
["inputs","histories","fault_sequences"],"all operator forms, sizes, alignments, handler behaviours and failure sequences",
"One test deletes one mismatched object; failing new and handlers are untested.",
["new.cc"],[("out-of-memory loop","new.cc: handle_out_of_memory, new_impl")],["operator new/delete"])
p("C33","The shipped libraries are complete drop-in replacements",
"In both shipped variants, every allocation entry point of the C library and C++ runtime (malloc, calloc, realloc, free, cfree, aligned_alloc, memalign, posix_memalign, valloc, pvalloc, malloc_usable_size, all operator new/delete forms, and the extensions) resolves to the library and can be mixed freely: a block from any one can be passed to any other that accepts it. Existing programs run unmodified under it with the same results. preload.sh runs any command under the built library, passing on its arguments, input, environment, earlier preloads and exit status.",
["programs","histories","configurations"],"all mixes of entry points in a dynamically linked process using the shipped libraries",
"The tests link a handful of entry points of the default variant only.",
["include/h_malloc.h",H,"new.cc","Makefile","preload.sh"],[("exported symbols","h_malloc.c, new.cc: EXPORT"),("aliases",H+": ALIAS"),("preloading","preload.sh")],["dynamic symbols and behaviour of libhardened_malloc.so and libhardened_malloc-light.so"])
p("C34","Memory tags separate neighbours, reuses and freed slots",
"With memory tagging, every non-empty small allocation carries a non-zero tag different from the current or last tag of its left and right neighbouring slots and from the previous tag of the same slot, and its memory, exactly the slot at every alignment, length and cache-line size, is retagged and cleared on allocation. Freeing a slot retags all of its memory with the reserved zero tag and clears it, and tagged pointers are accepted by free, realloc, malloc_usable_size and the object-size queries. Slab memory stays mapped for tagging when slabs are released and reused; once tagging is disabled, blocks tagged before stay usable and later ones carry no tag and are protected by a canary again.",
["histories","inputs"],"all small-allocation histories under an emulated tagging instruction set",
"The tagging build cannot run here or in the suite; the Android test samples fixed loops on special hardware.",
[H,"arm_mte.h","memtag.h","util.h"],[("tag choice",H+": tag_and_clear_slab_slot"),("tag instructions","arm_mte.h: arm_mte_tag_and_clear_mem, arm_mte_create_random_tag"),("free tag",H+": deallocate_small"),("nibble array","util.h: u4_arr_set, u4_arr_get")],["pointer tags and recorded tagging operations under emulation; arm_mte.h's machine code in an interpreter"],hook="arm_mte.h replaced by an emulation through its include guard (no source hook)")
p("C35","Memory use stays bounded and everything freed is given back",
"Address space and committed memory attributable to freed blocks never exceed the configured quarantines and caches: repeating any workload does not increase the number or total size of mappings without bound, and after all blocks are freed the large mappings that remain are only those the region quarantine may hold. Slots, slabs and large table entries are always recycled.",
["histories"],"all workloads repeated many times; every release path (free, shrink, move by copy, move by remap, failed allocation)",
"Tests never repeat an operation enough to see a leak.",
[H,"pages.c"],[("quarantine eviction",H+": regions_quarantine_deallocate_pages"),("unmap with guards","pages.c: deallocate_pages"),("table deletion",H+": regions_delete")],["mapped and committed bytes over time"])
p("C36","free preserves errno and null frees are no-ops",
"free leaves errno unchanged for every block and heap state, even when internal system calls fail. free, free_sized and every delete form with a null pointer do nothing.",
["histories","fault_sequences"],"all blocks and histories with injected failures inside free",
"errno is not examined by any test.",
[H],[("saved errno",H+": h_free, deallocate_small")],["errno around free"])
p("C37","First use initialises safely from any entry point and thread",
"Whichever entry point is called first, and from however many threads at once, the allocator initialises exactly once and the call behaves as specified; before initialisation, freeing, reallocating or querying the usable size of a non-null pointer aborts with a fatal error, object-size queries return no bound (SIZE_MAX), and trim, statistics and null operations are harmless.",
["schedules","programs","configurations"],"all first calls and all concurrent first calls, with and without early self-initialisation",
"Three tests call one function in a process that the self-initialising constructor has already initialised.",
[H],[("lazy initialisation",H+": init, init_slow_path, enforce_init, trigger_early_init")],["first API call of a process"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
sys.path.insert(0,"/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,sch)
    assert x["statement"].count(". ")<=2,x["id"]
print(len(P))
