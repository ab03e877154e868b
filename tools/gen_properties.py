#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The single source of the property texts.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

V="src/Vector.c"; S="src/String.c"; L="src/List.c"; B="src/Bitset.c"; F="src/Format.c"; A="src/ArgParse.c"
H="include/Zycore/"

p("C01", "A vector is exactly the sequence its operation history describes",
  "After any history of successful and rejected operations (push, insert of one element or a range, emplace at any position, set, swap, delete of one element or a range, pop, clear, resize with or without initializer, reserve, shrink, duplicate), the vector's size and the bytes of every element equal those of a plain sequence subjected to the same operations, for every element size. Every accessor (by value pointer, mutable pointer, status-returning pointer) designates the same element, an operation that is refused leaves the contents unchanged, and a duplicate is equal to and independent of its source.",
  ["inputs","histories"], "all element sizes, growth factors, shrink thresholds, initial capacities, custom-buffer or allocator storage, and all finite histories of public vector operations with in-range and out-of-range arguments",
  "The 21 vector tests replay a handful of fixed histories on 64-bit elements; insertion/deletion at every position combined with growth and shrink boundaries and other element sizes is never explored.",
  [V, H+"Vector.h"], [("shifting and copying of elements","src/Vector.c ZyanVectorShiftLeft/ShiftRight, InsertRange, EmplaceEx, DeleteRange, ResizeEx, DuplicateEx")],
  ["ZyanVectorGet*", "ZyanVectorGetSize", "ZYAN_VECTOR_FOREACH"],
  [("size","number of live elements","ZyanVector.size"),("data","element storage","ZyanVector.data")])

p("C02", "Vector capacity: growth factor, shrink threshold and fixed buffers are honoured",
  "The capacity never falls below the size nor below one; it grows only when a request does not fit, to the requested size times the growth factor, and shrinks automatically, to the size times the growth factor, exactly when a shrink threshold is configured and size times threshold is below the capacity (a growth factor of one means no over-allocation, a zero threshold means no automatic shrinking); a successful reserve guarantees that capacity and no re-allocation while it suffices, and shrink-to-fit reduces it to the size. A vector on a caller-provided buffer never allocates, keeps its capacity and buffer for ever, refuses with an insufficient-buffer status exactly the requests that do not fit without changing anything, and no vector ever touches memory outside its capacity.",
  ["inputs","histories","configurations"], "all growth factors 1..255, thresholds 0..255, capacities, element sizes and operation histories, for heap and custom-buffer vectors",
  "Unit tests check a few sizes with the default factors; boundary combinations of factor, threshold, reserve and shrink, and writes past a fixed buffer, need generated histories with guarded memory.",
  [V, H+"Vector.h"], [("growth and shrink decision","src/Vector.c ZYCORE_VECTOR_SHOULD_GROW / SHOULD_SHRINK"),("capacity changes","src/Vector.c ZyanVectorReallocate")],
  ["ZyanVectorGetCapacity","pointers returned by ZyanVectorGet","allocator calls"])

p("C03", "Every element is destroyed exactly once and never used after destruction",
  "In vectors and lists with a destructor, every element that entered the container is passed to the destructor exactly once - when it is overwritten by a set, deleted, popped, removed, dropped by a shrinking resize or clear, or when the container is destroyed - and elements that merely move are neither destroyed nor lost. The destructor always receives the address of an intact element inside the container, an emplaced element exists exactly if its constructor was called and reported success, and a refused operation destroys nothing.",
  ["inputs","histories","fault_sequences"], "all histories of container operations over elements carrying unique ownership tokens, including failing constructors and failing allocations",
  "Only tests without destructors or with a trivial one exist; the exactly-once guarantee is a statement about whole histories.",
  [V, L], [("destructor calls","src/Vector.c Set/DeleteRange/PopBack/ResizeEx/Destroy, src/List.c SetNodeData/PopBack/PopFront/Remove*/ResizeEx/Destroy"),("constructor protocol","src/Vector.c ZyanVectorEmplaceEx")],
  ["destructor and constructor callbacks"])

p("C04", "Memory is managed only through the configured allocator and fully returned",
  "Every container (vector, list, string, bitset, parsed-argument vector) obtains, resizes and releases memory exclusively through the allocator it was initialised with: re-allocations and releases name a live block with the element size and count it was last allocated with, no block is released twice or used after release, and after the container is destroyed nothing remains allocated. A container initialised on a caller-provided buffer never calls any allocator and never writes outside that buffer.",
  ["inputs","histories","configurations"], "all histories over all container types, each with a strict recording allocator whose re-allocation always moves the block",
  "The tests use only the default allocator, so mismatched sizes, missing releases or releases through the wrong allocator are invisible to them.",
  [V, S, L, B, A, "src/Allocator.c", H+"Allocator.h"], [("allocator calls","src/Vector.c ZyanVectorInitEx/Reallocate/Destroy; src/List.c AllocateNode/DeallocateNode/Destroy/ResizeEx; src/ArgParse.c failure path")],
  ["ZyanAllocator callbacks"])

p("C05", "Allocation failure is reported and leaves every container valid",
  "When the allocator refuses a request, the operation that needed it returns the allocator's failure status, the container keeps its previous contents and stays fully usable (every later operation, including a retry, behaves as if the failed call had not happened, and capacity bookkeeping still matches the real block), and nothing is leaked or destroyed twice. An allocator that refuses to take memory back is reported likewise: a list whose node could not be released during a removal remains a valid list of the elements that are left. Multi-step operations (list growth, number formatting with sign or prefix) may keep the steps already completed but never leave a malformed container, and failed initialisation or argument parsing leaks nothing.",
  ["fault_sequences","histories","inputs"], "all histories of operations on every container, with the allocator failing at any one or several of its calls (including shrinking re-allocations)",
  "No test injects an allocation failure; the guarantee quantifies over the failing call's position in a history.",
  [V, S, L, B, F, A], [("error propagation","ZYAN_CHECK around allocator calls"),("capacity bookkeeping","src/Vector.c ZyanVectorReallocate")],
  ["status codes", "contents and capacity after failure", "allocator live set"])

p("C06", "Vector search returns the first match, and binary search the lower bound",
  "Linear search over a whole vector or any sub-range reports the lowest index in the range whose element satisfies the comparison, or false and -1 if none does, and never examines elements outside the range. Binary search over a sorted range reports true exactly if an equal element exists and always yields the index of the first element not less than the key (the insertion position that keeps the range sorted), for every sub-range, with duplicates, with any consistent comparison, and with a number of comparisons that is logarithmic in the length of the range.",
  ["inputs"], "all vectors, element sizes, sub-ranges (empty, interior, full, invalid) and keys, with total-order comparisons including the library's own numeric ones",
  "Tests search two fixed arrays; duplicates, sub-range borders and insertion points for missing keys are sampled at single points.",
  [V, H+"Comparison.h"], [("linear scan","src/Vector.c ZyanVectorFindEx"),("bisection","src/Vector.c ZyanVectorBinarySearchEx")],
  ["found index and status", "elements passed to the comparison"])

p("C07", "A linked list is exactly the sequence its operation history describes",
  "After any history of pushes and emplacements at both ends, pops at both ends, removal of a node or of a node range, in-place data updates, resizes and clears, walking the list forward from the head and backward from the tail yields the same elements in opposite order, equal to those of a plain sequence subjected to the same operations, and the reported size matches. Nodes not removed keep their identity (address) and data, and operations on an empty list are refused without effect.",
  ["inputs","histories"], "all element sizes, heap and custom-buffer storage, and all finite histories of list operations",
  "There is no list test at all.",
  [L, H+"List.h"], [("link maintenance","src/List.c Push*/Emplace*/Pop*/Remove*/ResizeEx")],
  ["ZyanListGetHeadNode/TailNode/NextNode/PrevNode", "ZyanListGetSize", "ZyanListGetNodeData*"],
  [("head/tail/prev/next","doubly linked chain","ZyanList, ZyanListNode")])

p("C08", "A list on a fixed buffer uses the whole buffer, recycles nodes, never overflows",
  "A list on a caller-provided buffer of a given byte capacity accepts exactly as many simultaneous elements as nodes fit into the buffer, for every history of insertions and removals, and refuses one more with an insufficient-buffer status leaving the list unchanged. Slots freed by removals, pops, shrinking or clearing are reusable, live elements never overlap each other, and no byte outside the buffer is read or written.",
  ["inputs","histories"], "all buffer capacities (including ones too small for a single node and ones that are no multiple of the node size), element sizes and histories",
  "No test covers lists; free-list reuse after mixed removals is a history property.",
  [L], [("slot allocation","src/List.c ZyanListAllocateNode"),("slot recycling","src/List.c ZyanListDeallocateNode, ZyanListResizeEx")],
  ["status codes", "node addresses", "guard bytes around the buffer"])

p("C09", "A bitset is exactly the bit sequence its operation history describes",
  "For every bit count (not only multiples of eight) and every history of set, reset, assign, toggle, set-all, reset-all, flip, push, pop, clear, reserve and shrink operations, testing any index returns the bit that a plain array of booleans subjected to the same operations would hold, new bits start cleared, and size, size in bytes and capacity are consistent with the number of bits. Index out of range and pop on an empty bitset are refused without effect, and a bitset on a caller-provided buffer accepts exactly the bits that fit.",
  ["inputs","histories"], "all bit counts, growth factors, thresholds, heap and custom-buffer storage, and all histories of bit and size operations",
  "There is no bitset test at all.",
  [B, H+"Bitset.h"], [("bit addressing","src/Bitset.c ZYAN_BITSET_BITS_TO_BYTES, ZYAN_BITSET_BIT_OFFSET"),("size management","src/Bitset.c ZyanBitsetPush/Pop/Clear")],
  ["ZyanBitsetTest/TestMSB/TestLSB", "ZyanBitsetGetSize/GetSizeBytes/GetCapacity*"])

p("C10", "Bitset aggregates and logic operations see exactly the bits of the bitset",
  "Count returns the number of set bits, and all, any and none answer for exactly the bits of the bitset, whatever operations produced it and whatever the size; bits beyond the size never influence them. And, or, xor combine the bits at indices common to both bitsets and leave the size of the destination and the whole source unchanged (destination bits beyond a shorter source are unspecified), a custom byte operation is applied once to each byte of the shorter one, and the usual laws (involution of flip and xor, De Morgan, idempotence) hold.",
  ["inputs","histories"], "all pairs of bitsets of equal and different sizes, reached by arbitrary histories",
  "There is no bitset test at all.",
  [B, H+"Bitset.h"], [("aggregates","src/Bitset.c ZyanBitsetCount/All/Any/None"),("byte operations","src/Bitset.c ZyanBitsetPerformByteOperation")],
  ["ZyanBitsetCount/All/Any/None", "ZyanBitsetTest after a logic operation"])

p("C11", "A string is exactly the character sequence its edits describe, NUL-terminated",
  "After any history of insertions and appends (whole or partial sources), deletions, truncations, character writes, clears, resizes, reserves and shrinks, and for duplicates and concatenations, the string holds the same characters as a plain character sequence subjected to the same edits, the reported size is their number, and the byte after the last character is a NUL. Characters may have any value including NUL, refused edits change nothing, a reserve of n characters makes the reported capacity at least n, and the capacity is never below the size.",
  ["inputs","histories"], "all strings, sources (strings, views of terminated and unterminated buffers), positions and histories, on heap with every growth factor and shrink threshold",
  "The string test file contains no test.",
  [S, H+"String.h"], [("edits on the underlying vector","src/String.c Insert*/Append*/Delete/Truncate/Clear/Resize/Duplicate*/Concat*"),("termination","src/String.c ZYCORE_STRING_NULLTERMINATE")],
  ["ZyanStringGetData/GetSize/GetCapacity/GetChar"])

p("C12", "Strings on caller buffers never overflow and refuse what does not fit",
  "A string on a caller-provided buffer accepts exactly the edits whose result, including the terminating NUL, fits into the buffer, never writes outside it, never allocates and never moves, and reports its capacity as one less than the buffer size. An edit, duplicate, concatenation, number or formatted append that does not fit is refused with an insufficient-buffer status and leaves the string's characters, size and terminating NUL as they were (a multi-part number append may keep completed parts).",
  ["inputs","histories"], "all buffer sizes from one byte up and all histories of edits and formatted appends",
  "The string test file contains no test; off-by-one around the terminator shows only at exact-fit sizes.",
  [S, F], [("capacity check","src/Vector.c ZyanVectorReallocate for custom buffers"),("custom-buffer constructors","src/String.c *CustomBuffer")],
  ["status", "guard bytes around the buffer", "ZyanStringGetData/GetSize"])

p("C13", "String views depend only on the characters they designate",
  "A view of a string, of another view (whole or sub-range) or of a raw buffer designates exactly the requested characters: its size is their number, its data pointer is their address and every character is readable by index, an invalid sub-range is refused without effect. Every operation taking a view gives the same result for any two views with equal characters, whatever memory surrounds them - no terminator is required and no byte outside the view is read or changed.",
  ["inputs"], "all buffers, nested sub-ranges, lengths and character values including NUL, and every operation accepting a view",
  "The string test file contains no test; dependence on neighbouring bytes needs metamorphic or guarded-memory checks.",
  [S, H+"String.h"], [("view construction","src/String.c ZyanStringViewInside*"),("consumers of views","src/String.c, src/Format.c")],
  ["ZyanStringViewGetSize/GetData", "ZyanStringGetChar", "results of consumers"])

p("C14", "Substring search finds the first or last occurrence inside the searched range",
  "Forward search over a string or a sub-range reports the lowest index at which the needle's characters occur entirely inside the range, and backward search the highest; if there is none they report false and -1. The case-insensitive variants behave the same with ASCII letters compared regardless of case and all other characters compared exactly; invalid ranges are refused.",
  ["inputs"], "all haystacks, needles, sub-ranges and both directions and case modes, with characters of any value, from terminated and unterminated views",
  "The string test file contains no test; overlapping partial matches and range borders defeat hand-picked samples.",
  [S], [("search loops","src/String.c ZyanStringLPosEx/LPosIEx/RPosEx/RPosIEx")],
  ["status and found index"])

p("C15", "String comparison is a total order; case mapping changes only ASCII letters",
  "Comparing two strings reports equality exactly if they have the same characters (up to ASCII letter case for the case-insensitive variant), otherwise a negative or positive result determined by the first mismatching character or, if one is a prefix of the other, by length; the relation is antisymmetric and transitive. Lower- and upper-casing a string or sub-range changes exactly the ASCII letters inside the range and nothing else, whatever the locale of the process, and is idempotent.",
  ["inputs"], "all pairs and triples of strings and all sub-ranges, with characters of any value",
  "The string test file contains no test; order laws quantify over pairs and triples.",
  [S, H+"String.h"], [("comparison","src/String.c ZyanStringCompare/CompareI"),("case mapping","src/String.c ZyanStringToLowerCaseEx/ToUpperCaseEx")],
  ["status and result of comparison", "string contents"])

p("C16", "Number formatting appends the exact canonical digits",
  "Appending an unsigned or signed integer in decimal or hexadecimal appends exactly: the minus sign for negative values or a plus sign if forced, the optional prefix, then the digits of the magnitude without superfluous leading zeros, left-padded with zeros to the requested width, in the requested letter case - for every 64-bit value including the extremes and every width. The existing characters are kept, the result is NUL-terminated, and parsing it back yields the value, whatever the string's remaining capacity and on 64-bit as well as 32-bit code paths.",
  ["inputs","configurations"], "all 64-bit values, widths 0..255, sign/prefix/case options, prior contents and remaining capacities, both word-size code paths",
  "No test covers formatting; digit-count boundaries times padding times remaining capacity is a large product.",
  [F], [("decimal conversion","src/Format.c ZyanStringAppendDecU32/U64"),("hexadecimal conversion","src/Format.c ZyanStringAppendHexU32/U64"),("sign and prefix","src/Format.c ZyanStringAppendDecS/HexS")],
  ["ZyanStringGetData/GetSize"])

p("C17", "Formatted append equals the C library's formatting of the same arguments",
  "A formatted append extends the string by exactly the characters the C library's printf family produces for the same format and arguments, whatever the current size and capacity, growing the string if needed, and keeps it NUL-terminated. If the result does not fit a fixed buffer or memory is refused, it reports the failure and leaves the previous characters, size and terminator intact.",
  ["inputs","histories","fault_sequences"], "all format strings and argument lists of supported kinds, prior contents, remaining capacities and growth factors",
  "No test covers formatting; re-use of the argument list happens only when the string must grow.",
  [F], [("two-pass formatting","src/Format.c ZyanStringAppendFormat")],
  ["ZyanStringGetData/GetSize", "status"])

p("C18", "Argument parsing follows the documented command-line grammar",
  "For every option table and argument vector the parser either yields, in order, one entry per recognised option (bound to its definition, with its value if it takes one - taken from the rest of a single-dash cluster or the next token) and per unnamed argument, or fails with the status and token of the first violation (unknown option, missing value, too many or too few unnamed arguments, missing required option, malformed table). A lone double dash ends option parsing, a lone dash is an unnamed argument, boolean single-dash options may be clustered, the program name is skipped, the values designate the caller's text, and on failure nothing stays allocated.",
  ["inputs"], "all option tables, argument vectors and limits on unnamed arguments",
  "Seven tests cover single examples of each form; clusters, double dash, precedence of errors and value consumption interact combinatorially.",
  [A, H+"ArgParse.h"], [("token loop","src/ArgParse.c ZyanArgParseEx")],
  ["status, error token, parsed entries"])

p("C19", "Invalid arguments are rejected with a status and without effect",
  "Every public operation given an invalid argument it promises to reject - a null container, source, element or output where required, an index or range beyond the end (including ranges whose end overflows the index type), a request too large for the address space, a zero element size, capacity or count - returns a failure status and neither crashes nor changes any container or touches memory outside it. The container remains fully usable afterwards.",
  ["inputs"], "all operations of all modules with every combination of null arguments and indices, counts and sizes drawn from the whole range of the index type",
  "Tests exercise one null and one off-by-one per function in the vector module only; wrap-around of index plus count is never tried.",
  [V, S, L, B, F, "src/Allocator.c"], [("argument checks","first lines of each exported function")],
  ["status codes", "unchanged observable state"])

p("C20", "C-library names and freestanding substitutes act like the standard functions",
  "With a C library, every name the library gives to a C-library function, stream or object denotes exactly that one. In the configuration without a C library, each substitute for a standard memory or string function returns the same result and leaves the same memory as the standard function for every valid input (comparison results up to sign), including overlapping moves, empty strings, bytes above 127, embedded terminators at length limits and successive tokenisation calls. No substitute reads or writes beyond the bytes the standard permits.",
  ["inputs","configurations"], "all valid inputs of the named and substituted functions, in both configurations",
  "The tests are always built with a C library, so the substitutes are never even compiled.",
  [H+"LibC.h"], [("fallback implementations","include/Zycore/LibC.h under ZYAN_NO_LIBC")],
  ["return values and destination memory"])

p("C21", "Atomic operations are linearizable read-modify-write operations",
  "Compare-exchange stores the new value exactly if the old one equals the comparand and always returns the old value; increment and decrement change the value by one with wrap-around and return the new value; for 32-bit, 64-bit and pointer width, touching no neighbouring memory. Under concurrent use by any number of threads every operation takes effect exactly once at one instant: results of concurrent increments are all distinct and compare-exchange loops lose no update.",
  ["inputs","schedules"], "all values and operation sequences, and concurrent executions by several threads",
  "No test covers atomics; lost updates appear only under concurrent schedules.",
  [H+"Atomic.h", H+"Internal/AtomicGNU.h"], [("compiler atomics","include/Zycore/Internal/AtomicGNU.h")],
  ["returned values and final value"])

p("C22", "A critical section gives recursive mutual exclusion",
  "At most one thread at a time is inside a critical section; the owner may enter again and others are admitted only after as many leaves as enters; a try-enter succeeds exactly if the section is free or owned by the caller and never blocks; leaving a section the caller does not own is refused. Effects made inside are visible to the next owner, and a call the operating system refuses is reported as a failure and changes nothing.",
  ["schedules","histories"], "all interleavings of enter, try-enter and leave by several threads",
  "No test covers synchronisation.",
  ["src/API/Synchronization.c"], [("recursive mutex","src/API/Synchronization.c ZyanCriticalSectionInitialize")],
  ["status codes, ownership bookkeeping, protected counters"])

p("C23", "Thread-local slots and thread identities are per thread",
  "A value stored in a thread-local slot is returned to the same thread by every later read until overwritten, is never visible to another thread or through another slot, reads as null before the first store in a thread, and the slot's destructor runs at thread exit exactly once with each non-null value; requests that cannot be honoured (no more slots, a released slot, a refusal by the operating system) are reported as failures. The current-thread handle and id are stable within a thread and distinct between simultaneously live threads.",
  ["schedules","histories","inputs"], "all histories of slot allocation, release, store and load over several threads",
  "No test covers the threading API.",
  ["src/API/Thread.c"], [("TLS wrappers","src/API/Thread.c ZyanThreadTls*"),("identity","src/API/Thread.c ZyanThreadGetCurrentThread*")],
  ["values read, destructor calls, ids"])

p("C24", "Memory, process and terminal services have the requested system effect",
  "Changing page protection makes exactly the pages of the given range have exactly the requested access rights and keeps their contents; releasing pages unmaps exactly the given range; the reported page size and allocation granularity are those of the system; flushing the instruction cache keeps memory intact; invalid addresses and everything else the operating system refuses yield a failure status. A standard stream is reported as a terminal exactly if it is bound to one, a closed stream yields an error, and virtual-terminal sequences can be enabled for the output streams only, the predefined colour sequences select exactly the colour they are named after and nothing else; all these services can be called from C and from C++.",
  ["inputs","histories","configurations"], "all page ranges, protections and histories inside a private mapping, and all bindings of the standard streams",
  "No test covers the operating-system services.",
  ["src/API/Memory.c", "src/API/Process.c", "src/API/Terminal.c", H+"API/Memory.h", H+"API/Terminal.h"], [("system calls","src/API/Memory.c, src/API/Process.c, src/API/Terminal.c"),("colour sequences",H+"API/Terminal.h")],
  ["actual access rights of the pages", "status codes"])

p("C25", "Utility macros, status codes and comparison functions obey their definitions",
  "Aligning up or down yields the nearest multiple of the alignment not below or not above the value (an aligned value stays itself); minimum, maximum, absolute value, power-of-two and alignment predicates and bits-to-represent agree with their mathematical definitions on their whole domain, for operands that are any expressions of any integer types. A status code round-trips its error flag, module and code, success and failure predicates are complementary and follow the error flag, all predefined codes are distinct, version parts round-trip, and a checked call is evaluated once and left early exactly on failure. The integer types have the documented sizes, signs and limits in every build, and the predefined equality and three-way comparison functions agree with the numeric order for every pair of values.",
  ["inputs"], "all operand values of the supported widths, all modules and codes",
  "The tests use these macros only incidentally with a few values.",
  [H+"Defines.h", H+"Status.h", H+"Comparison.h", H+"Zycore.h", H+"Types.h"], [("macros","include/Zycore/Defines.h, Status.h, Comparison.h")],
  ["macro values"])

p("C26", "All build configurations of the library behave identically",
  "The same history of container, string, bitset and number-formatting calls produces the same status codes and contents whether the library is built with or without the C library, with or without debug assertions, with or without optimisation, with either word-size code path, and by either available compiler.",
  ["configurations","inputs","histories"], "all histories of calls available in every configuration, over the supported build configurations",
  "The tests run one configuration only (debug, with C library, gcc).",
  ["src/", H+"LibC.h", H+"Defines.h", "CMakeLists.txt"], [("conditional compilation","ZYAN_NO_LIBC, NDEBUG, ZYAN_X64 / ZYAN_X86 branches")],
  ["traces of status codes and contents"])

p("C27", "Strings and bitsets resize their storage by the configured policy",
  "A string or bitset keeps the growth factor, shrink threshold and allocator it was given (also when it is made as a duplicate or concatenation). It re-allocates to grow only when the new size (with the terminating NUL character, in bytes) exceeds the capacity, and then to the size times the growth factor. With a shrink threshold of zero it never shrinks by itself; otherwise a deletion or resize shrinks it exactly when size times threshold is below the capacity, to the size times the growth factor and never to more than before. It never gives up memory it still needs. After a reservation the reserved capacity is available without further allocation (the data stays at its address); shrinking to fit leaves no spare capacity; fixed buffers are never re-allocated. Capacity, as reported, is the memory really held.",
  ["histories","inputs","configurations"], "all histories of edits on strings and bitsets under all growth factors and shrink thresholds",
  "The tests cover one policy value for strings and none for bitsets.",
  ["src/String.c", "src/Bitset.c", "src/Vector.c", H+"String.h", H+"Bitset.h"], [("reallocation decision","src/Vector.c, through src/String.c and src/Bitset.c"),("policy fields","ZyanStringInitEx, ZyanStringDuplicateEx, ZyanStringConcatEx, ZyanBitsetInitEx")],
  ["capacities, data addresses and allocator calls"])

p("C28", "Typed container access and static definitions work for every element type",
  "The typed access and iteration macros of the vector and list give exactly the stored elements, as values of the requested type, in order and once each; mutable iteration writes through to the container; iteration can be nested and left early; statically initialised vectors, lists, strings, allocators and string views are the same objects as ones initialised by the functions, and a string used as a view is a view of its whole content without copying. This holds in C and in C++.",
  ["inputs","configurations"], "all element types and container contents, in C and C++ with both compilers and both optimisation modes",
  "The tests use some of the macros in C++ with one type.",
  [H+"Vector.h", H+"List.h", H+"String.h", H+"Bitset.h", H+"Allocator.h"], [("macros","include/Zycore/Vector.h ZYAN_VECTOR_GET, ZYAN_VECTOR_FOREACH*, include/Zycore/List.h ZYAN_LIST_GET, include/Zycore/String.h ZYAN_DEFINE_STRING_VIEW, ZYAN_STRING_TO_VIEW")],
  ["values read and written through the macros"])

p("C29", "No hidden state: private objects run concurrently, shared ones are readable",
  "The library keeps no hidden mutable state: threads working on different vectors, lists, strings, bitsets and argument parsers at the same time get exactly the results they would get alone, and operations that take an object as constant (reading, searching, comparing, iterating, copying from it) never write to it, so that any number of threads can read one object at the same time without a data race.",
  ["schedules","histories","inputs"], "all interleavings of histories on private objects and of reading operations on shared objects",
  "All tests are single-threaded.",
  ["src/Vector.c","src/List.c","src/String.c","src/Format.c","src/Bitset.c","src/ArgParse.c","src/Allocator.c"], [("no static state","src/Format.c, src/String.c, src/Allocator.c, src/ArgParse.c"),("constant operands","reading functions of all containers")],
  ["results per thread", "conflicting unsynchronised accesses"])

p("C30", "The default allocator: intact blocks, failures reported, containers survive",
  "Every block of the default allocator holds at least the requested number of elements, is aligned for any object and shares no byte with another block; re-allocation keeps the contents up to the smaller size; a request whose size overflows or that the heap refuses reports the not-enough-memory status and leaves the block and the caller's pointer untouched. Vectors, lists, strings, bitsets and argument parsing that use it report that status, keep their contents and stay usable and destroyable when the heap refuses memory at any point, and hand every block back to the heap exactly once.",
  ["inputs","histories","fault_sequences"], "all request sizes, all histories of containers on the default allocator, a heap refusal at every possible call",
  "The tests never let the heap refuse memory, nor look at what is left over.",
  ["src/Allocator.c","src/Vector.c","src/List.c","src/String.c","src/Bitset.c","src/ArgParse.c"], [("default allocator","src/Allocator.c ZyanAllocatorDefaultAllocate, ZyanAllocatorDefaultReallocate, ZyanAllocatorDefaultDeallocate"),("users","ZyanVectorInit, ZyanListInit, ZyanStringInit, ZyanBitsetInit, ZyanArgParse and the Duplicate and Concat functions")],
  ["heap calls", "statuses and contents"])

p("C31", "Containers nest: elements may themselves be containers",
  "Containers can be elements of containers to any depth, with destructors that destroy the inner containers. Inner containers that are moved bitwise by insertions, removals, swaps, resizes and re-allocations of the outer one (or with it) stay valid with their contents; removing, overwriting, clearing, shrinking or destroying destroys exactly the removed inner containers, each exactly once and before its storage is reused or released; after destroying the outermost container no block of any level is left.",
  ["inputs","histories","configurations"], "all trees of containers, all histories of operations on nodes of the tree",
  "The tests use plain numbers and strings as elements.",
  ["src/Vector.c","src/List.c","src/String.c","src/Bitset.c"], [("element moves","src/Vector.c shifting, swapping, re-allocation; src/List.c nodes"),("destructors","src/Vector.c, src/List.c removal, clear, resize, destroy")],
  ["contents of the tree", "destructor calls", "allocator blocks"])

p("C32", "Headers are self-contained and portable; every declared function links",
  "Every public header can be included alone, repeatedly and in any order, from C (C99 and later) and from C++ (C++11 and later), with and without the C library, for every supported compiler, platform and architecture, and what it declares can be used then; the library's sources compile there as well. Compiler, platform, architecture, POSIX, debug and user-mode detection each choose exactly the right macro for whatever a compiler predefines, an unsupported architecture is diagnosed, and the integer types have the right sizes and limits. The assertion, annotation, bit-field and naming macros have their documented effect in every language mode: a static assertion accepts exactly true conditions, a runtime assertion stops exactly debug builds whose condition is false. Every function a public header declares can be linked from C and C++ with the static and the shared library (a DLL included, from which only exported functions can be linked), in a build with and one without the C library.",
  ["configurations","inputs"], "all sequences of public headers, all subsets of declared functions, over the compilers, language modes, platforms, architectures and options that can be compiled for here",
  "The tests include each header in one fixed place in one configuration.",
  ["include/Zycore/"], [("detection",H+"Defines.h"),("types",H+"Types.h"),("substitutes",H+"LibC.h"),("declarations","include/Zycore/*.h, include/Zycore/API/*.h")],
  ["compiler and linker verdicts", "static assertions"])

p("C33", "Atomic operations order the plain memory accesses of the threads using them",
  "Every atomic operation is a full barrier for the accesses around it, whether a compare-exchange succeeds or fails and for every width: what a thread wrote before an operation is visible to every thread that observes the operation's effect, and nothing a thread does after observing it happens earlier. So data handed over by a token, an arrival or reference count, or a lock built from these operations is never read stale, torn or in a data race.",
  ["inputs","schedules"], "all programs whose threads synchronise through the atomic operations only",
  "No test covers atomics, and missing orderings do not show in single-threaded runs.",
  [H+"Atomic.h", H+"Internal/AtomicGNU.h"], [("compiler atomics","include/Zycore/Internal/AtomicGNU.h")],
  ["values of plain data read after synchronisation", "absence of data races"])

p("C34", "Results depend only on the arguments and on the contents of the objects involved",
  "What a call returns, stores and leaves behind is a function of its arguments and of the abstract state of the objects passed to it. It never depends on what an object, buffer or memory block held before it was initialised, on dead stack contents, errno or the locale of the process (apart from formatted appends, which follow the C library), on the addresses at which objects, blocks or arguments lie or the order of those addresses, on whether an argument occupies memory that held another one before, or on earlier operations on unrelated objects: there is no hidden state, no cache that outlives what it describes, and no read of memory that was not written.",
  ["inputs","histories","configurations"], "all histories of operations on vectors, lists, strings, bitsets and the argument parser, in any surroundings",
  "Tests run once, in one process, in whatever memory they happen to get; most of it is zero.",
  ["src/Vector.c","src/List.c","src/String.c","src/Format.c","src/Bitset.c","src/ArgParse.c"], [("initialisers","src/*.c"),("locals and output parameters","src/*.c")],
  ["statuses", "outputs", "sizes, capacities and contents", "destructor calls"])

p("C35", "Operations stay within the cost their data structure promises",
  "Access by index, sizes, capacities, single-bit operations, adding, removing and visiting list nodes (at either end or anywhere, on an allocator or a fixed buffer) take a bounded number of steps, independent of how many elements there are. Adding and removing at the end of a vector, string or bitset is amortised constant under the default policy, also when both alternate around any size. Binary search is logarithmic, for any number of equal elements; a linear search looks at each element of its range once; a text search stays within its range and needs at most the product of range and needle; insertion and deletion move only what lies behind the position; resizing, clearing and destroying are linear in the elements concerned, logic operations in the bytes. Argument parsing is linear in the characters of the arguments times those of the definitions. No call needs more than a small, constant amount of stack, whatever the sizes involved.",
  ["inputs","histories"], "all histories of operations on vectors, lists, strings and bitsets with the default policy, all sizes",
  "Tests use a handful of elements and judge results only.",
  ["src/Vector.c","src/List.c","src/String.c","src/Format.c","src/Bitset.c","src/ArgParse.c"], [("growth and shrinking","src/Vector.c:ZyanVectorReallocate"),("node recycling","src/List.c:ZyanListDeallocateNode"),("search loops","src/String.c, src/Vector.c")],
  ["executed control-flow edges", "bytes copied by re-allocations", "comparisons made"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
