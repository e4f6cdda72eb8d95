VF = ["src/x/vmem_pool.x.h", "src/x/vmem_container.x.h", "src/x/vmem_linked.x.h", "src/i/vmem_layout.i.h"]
VN = ("Sampled, not exhaustive: seeded random operation histories run against the real virtual memory code over a simulated disk, compared after each step with a reference model. "
      "Pools of 5, 8, 16 and 64 mapped pages, item sizes from 1 byte to a whole page. Trusts the simulated open/lseek/write/mmap/munmap/msync; crash means process death (mapped pages survive), not power loss.")

prop("V01", "Pages handed out are distinct and keep what their owner wrote",
     "A page handed out by a pool is not in use by anyone else until it is given back, and keeps exactly the bytes its owner wrote, however often it is unmapped, mapped again at another address, or other pages come and go. A page that has been given back may be handed out again, but is never handed out twice at the same time.",
     ["histories", "programs", "configurations"],
     "every history of allocating, locking, writing, unlocking and freeing pages, next to lists, maps and strings that live in the same pool, for every memory limit from 5 mapped pages up",
     "The tests allocate a handful of pages in one fixed order and look at their positions; they never overlay random frees, evictions and container activity.",
     VF[:1], [("page allocation, free list, mapping and eviction", "src/x/vmem_pool.x.h: alloc_page/free_page/lock_page/unlock_page/unmap_mapped_page")], VN)
prop("V02", "Virtual memory lists and stacks behave like in-memory sequences",
     "After any sequence of insertions, range insertions, erasures, range erasures, pushes, pops and clears at any positions, a list or stack contains exactly the items that an ordinary sequence would, in the same order when traversed forward or backward, and reports the matching size and emptiness. Iterators returned by operations refer to the inserted item or to the item after the erased one. A container that has been copied or moved has the same items, and a temporary one keeps them until its last owner goes.",
     ["histories", "inputs", "configurations"],
     "every operation history, every position, item sizes from a few bytes to one item per page, with and without closing and reopening the pool in between",
     "Tests exercise one item size and fixed patterns; page splits, merges and rebalancing depend on the exact fill of each page, which random histories reach and a handful of tests do not.",
     ["src/x/vmem_container.x.h", "src/x/vmem_iterator.x.h", "src/x/vmem_list.x.h"],
     [("insertion with page split and balancing", "src/x/vmem_container.x.h: insert_nonempty/insert_with_overflow"), ("erasure with page merge", "src/x/vmem_container.x.h: erase_from_many"), ("iteration", "src/x/vmem_iterator.x.h")], VN)
prop("V03", "A virtual memory map behaves like an ordered in-memory map",
     "After any sequence of insertions, lookups, value changes, erasures and clears, a map finds exactly the keys that are in it, with the values last stored, and iterates over all of them once in ascending key order in either direction. Inserting a key that is present changes nothing and says so. The result of a lookup leads to the same item after it has been moved.",
     ["histories", "inputs", "configurations"],
     "every operation history over keys in any order (ascending, descending, random), key and value sizes from 8 bytes to most of a page, so that trees of one to several levels grow and shrink",
     "Tests insert a fixed list of keys in a few orders; the multi-level key pages must stay consistent with value pages for every split and merge sequence.",
     ["src/x/vmem_map.x.h", "src/x/vmem_container.x.h"],
     [("descent through key levels", "src/x/vmem_map.x.h: find2"), ("key levels updated after page splits and merges", "src/x/vmem_map.x.h: update_key_levels")], VN)
prop("V04", "Linked page lists keep all their pages in order",
     "A list of linked pages holds exactly the pages that were put in it, in order and reachable in both directions, after any sequence of insertions, erasures, splices, pops and clears. Splicing moves all pages and leaves the source empty; clearing gives every page back to the pool.",
     ["histories", "programs"],
     "every history of page list operations on several lists in one pool, including empty and single-page lists on either side of a splice",
     "Tests splice only a few fixed shapes.",
     ["src/x/vmem_linked.x.h"], [("page links", "src/x/vmem_linked.x.h: insert/erase/splice/clear")], VN)
prop("V05", "What was stored is there after a close and reopen or a process kill",
     "Everything that completed operations stored in a pool is there, unchanged, when the file is opened again, whether the pool was closed properly or the process was killed between two operations. A reopened pool goes on working as if it had never been closed, including pages that were free, and so does a pool that has been moved to another object.",
     ["crash_points", "histories", "configurations"],
     "every history of operations on raw pages, lists, stacks, maps and strings, interrupted at any point between two operations by a close or by a kill that leaves only the mapped file",
     "Tests reopen a pool once after a fixed fill, and never after a kill.",
     VF + ["src/x/vmem_map.x.h", "src/x/vmem_string.x.h"],
     [("shared file mapping and flush on close", "src/x/vmem_pool.x.h: destructor, map_page, open"), ("root and start page recognition on open", "src/x/vmem_pool.x.h: verify_pool_or_throw, init_pool_or_throw")],
     VN + " Kill points lie between operations, because the repository documents no atomicity within one.")
prop("V06", "The pool maps no more pages than its limit and never moves a locked one",
     "A pool never has more pages mapped than the limit it was created with, whatever is stored in it and however it is used. A page stays at the same address as long as someone holds it locked, however many do and however their handles are copied, moved and assigned. Exactly as many pages as the limit says can be locked at once; locking one page too many fails cleanly and succeeds again once pages are unlocked.",
     ["histories", "programs", "configurations"],
     "every history of container operations and held page locks, for memory limits of 5, 8, 16 and 64 pages",
     "Tests cannot see how many pages are mapped; the limit must hold at every step of every history.",
     VF[:1], [("bounded table of mapped pages with eviction of unlocked ones", "src/x/vmem_pool.x.h: lock_page/unmap_mapped_page/optimize_mapped_pages")],
     VN + " The bound is observed on the simulated mmap/munmap calls.",)
prop("V07", "A full or failing disk makes an operation fail cleanly and harms nothing else",
     "When the pool file cannot grow or a page cannot be mapped or the file cannot be opened, the operation that needed it reports failure and everything stored before stays readable and unchanged; an operation that reports success has happened. Once storage works again so do operations, and a pool that could not be opened leaves no mapping or descriptor behind and can be opened later.",
     ["fault_sequences", "histories"],
     "every sequence of disk full, failed and short writes, failed seeks, failed mmap and failed open at any call, during any history of list, stack, string and raw page operations",
     "Tests never make a system call fail.",
     ["src/x/vmem_pool.x.h", "src/x/vmem_container.x.h", "src/x/vmem_string.x.h"],
     [("growing the file by a page", "src/x/vmem_pool.x.h: create_page"), ("mapping", "src/x/vmem_pool.x.h: map_page"), ("string stream buffer", "src/x/vmem_string.x.h")],
     VN + " mmap failures are injected on plain page locks and while opening; V11 injects them in the middle of changes.")
prop("V08", "A full or failing disk never damages a map",
     "When the pool file cannot grow during an insertion into or an erasure from a map, the operation either happens completely or reports failure and changes nothing: every key stored before is still found with its value, in order, and no other key is. Once storage works again so do insertions.",
     ["fault_sequences", "histories"],
     "every sequence of disk full, failed and short writes and failed seeks at any call, during any history of map insertions and erasures",
     "Tests never make a system call fail; a split of a key page can need several new pages in one insertion.",
     ["src/x/vmem_map.x.h", "src/x/vmem_container.x.h"],
     [("needed pages are secured before the insertion", "src/x/vmem_map.x.h: insert2/update_key_levels")], VN)
prop("V09", "Pages of erased and cleared data are reused and never leak",
     "Once everything in a pool has been erased, cleared and freed, every page of the file except those holding the pool's own records is available again, so that repeating the same kind of work does not make the file grow without bound. No page is counted as available twice.",
     ["histories"],
     "every history of filling and emptying raw pages, page lists, lists, stacks, maps and strings, in several rounds, with and without reopening",
     "Tests look at a few free pages after one fixed sequence.",
     ["src/x/vmem_pool.x.h", "src/x/vmem_container.x.h", "src/x/vmem_map.x.h", "src/x/vmem_linked.x.h"],
     [("freeing pages of containers", "src/x/vmem_container.x.h: erase/clear"), ("free page list", "src/x/vmem_pool.x.h: clear_linked/push_free_page_pos/pop_free_page_pos")], VN)
prop("V10", "Virtual memory strings and their streams carry every character in order",
     "A string kept in virtual memory contains exactly the characters that were put in it, through its own operations or through a stream, and a stream over it returns them in order and then reports the end. All 256 character values survive, and so do those of wider character types.",
     ["histories", "inputs"],
     "every sequence of string edits, stream writes with flushes at any point, and stream reads, over all char values and lengths of several pages",
     "Tests write one short text.",
     ["src/x/vmem_string.x.h"], [("string stream buffer", "src/x/vmem_string.x.h: underflow/overflow/sync")], VN)
prop("V11", "A page that cannot be mapped makes a change fail without harming anything",
     "When pages cannot be mapped, be it that too many pages are locked or that the system refuses, a change of a page list, list or stack either happens completely or not at all and says which, no page is handed out twice, and nothing else changes. Looking up a key of a map then finds it with its value or does not find it, and a change of a map of which no page can be mapped changes nothing.",
     ["fault_sequences", "histories", "configurations"],
     "every sequence of failed mmap calls and held page locks in the middle of insertions, erasures, splices, allocations and lookups, during any history, for memory limits of 5, 8, 16 and 64 pages",
     "Tests never make a system call fail, and fill the table of mapped pages only with plain pages.",
     ["src/x/vmem_linked.x.h", "src/x/vmem_pool.x.h", "src/x/vmem_container.x.h", "src/x/vmem_map.x.h"],
     [("links of a page list", "src/x/vmem_linked.x.h: insert_nostate/erase_nostate/splice"), ("free list", "src/x/vmem_pool.x.h: pop_free_page_pos"), ("page split and merge", "src/x/vmem_container.x.h: insert_page_after/balance_merge/erase_page"), ("lookup", "src/x/vmem_map.x.h: find2")],
     VN + " A page that cannot be mapped while it is freed may stay unused. Maps whose pages can be mapped at some moments of one change and not at others are not covered, apart from one recorded finding.")
