#!/usr/bin/env python3
# Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, the property list, the checks and the planted bugs.
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
O = {}
def o(i, oracle, reach): O[i] = (oracle, reach)
o("C01", "A `std::vector` of byte blocks next to the real vector; after every call status, size, every element (through the accessors, at wild indices too) and the unchanged source buffers are compared.",
  "Order and identity of elements after long mixed histories, sizes beyond 255 and 65535, element sizes of 1 to 135 000 bytes, every range that wraps around.")
o("C02", "The documented policy as arithmetic on (size, growth factor, shrink threshold), compared with GetCapacity, the real block of the recording allocator and the calls it saw.",
  "All 255 x 256 policies, the exact switching points, histories that oscillate around them; in 32-bit programs the point where the arithmetic of the policy leaves the range of ZyanUSize.")
o("C03", "A log of destructor and constructor calls (address, bytes; the destructor overwrites the element) against the multiset of elements that left.",
  "Exactly-once over all ways of leaving, on both containers, with failing constructors and refused memory.")
o("C04", "A strict allocator: unique blocks, exact sizes, always-moving re-allocation, checks pointer, element size and count of every call; the C library's heap is replaced by counting stand-ins for the default allocator.",
  "A wrong size in a release or a call to a foreign allocator is invisible with malloc.")
o("C05", "The same models with an allocator that refuses chosen calls; the status must be the allocator's own, the model unchanged, the retried call must work.",
  "Every call index of every operation is a failure point; tests have none.")
o("C06", "Linear scan and lower bound; the comparison callback itself checks that it only sees elements of the range and the key; a binary search may make at most 4 log2(n)+8 comparisons.",
  "Sub-ranges inside unsorted vectors, duplicates, comparison functions that return differences.")
o("C07", "`std::list` of (node address, bytes); forward and backward walks after every call; node addresses must be stable.",
  "Link corruption shows only in walks from the other end, after particular removals.")
o("C08", "As C07 on an exact buffer: every node inside it, disjoint from the others, number of accepted elements equals the number of slots.",
  "Recycling order matters only after particular sequences of removals and clears.")
o("C09", "Array of booleans; all bits, size, size in bytes and capacity after every call; caller buffers between red zones.",
  "Bit counts that are no multiple of eight, push/pop across byte borders, all indices.")
o("C10", "Aggregates recomputed from the model, algebraic laws at the end of the history.",
  "Padding bits are invisible until an aggregate looks at them.")
o("C11", "`std::string`; contents, terminator, size, capacity and source views after every call.",
  "Edits before the end with every source kind and all ranges; growth in the middle of an edit.")
o("C12", "As C11 with 'accepted iff the result and its terminator fit'; red zones at both ends and a forbidden allocator.",
  "Exact fits, one-off overflows and refused edits that leave a half-done result.")
o("C13", "Metamorphic: the same operation with views of equal text over different memory must give the same; chains of views against the designated characters.",
  "Reading one character beyond a view is harmless in tests, whose views are terminated.")
o("C14", "Naive search over the range; needles biased to near matches.", "Partial matches that overlap the match, matches at both range ends, all byte values.")
o("C15", "Reference order plus antisymmetry and transitivity over all triples; case mapping against a reference and twice.", "Laws quantify over all triples of strings.")
o("C16", "An independent formatter and parsing the digits back, in the 64-bit and the 32-bit code paths.", "All 2^64 values x padding x flags x capacity at hand.")
o("C17", "`snprintf` with the same arguments; refused memory and encoding errors injected.", "Texts that just do or do not fit the capacity; failure at the second pass.")
o("C18", "An independent reference parser (status, error token, order, binding, addresses).", "Interactions of clusters, attached values, --, limits and required options.")
o("C19", "Failure status, every model unchanged, allocators untouched, ASan.", "About 130 functions x null masks x wrap-around ranges x impossible sizes x uninitialised sources.")
o("C20", "Differential: the installed C library; blocks of exactly the permitted size under ASan; three builds.", "The substitutes run in no test at all.")
o("C21", "Arithmetic model; for concurrent programs a linearizability search over the recorded results; conservation in bulk runs.", "Atomicity quantifies over interleavings.")
o("C22", "Ownership model driven step by step by a scheduler over real threads; unprotected counters in stress runs; injected refusals; the Windows branch over a fake of its locks.", "Who may enter depends on the history of several threads.")
o("C23", "(slot, thread) -> value model with the destructor calls due at each thread exit; the Windows branch over a fake of its services.", "Isolation between threads, recycled slots, exhausted slots.")
o("C24", "Per-page model verified by probing accesses, /proc/self/maps and execution; terminal ioctl for the streams; fakes of the Windows services with refusals for the Windows branches.", "Tests touch no rights at all.")
o("C25", "Definitions evaluated in 128-bit arithmetic; nine builds.", "All operand values and type combinations.")
o("C26", "Differential over eleven builds (also kernel, simulated Microsoft compiler, custom C library) with the same history and the same injected refusals.", "Tests run one configuration.")
o("C27", "As C02 for strings and bitsets.", "As C02.")
o("C28", "The sequence the container holds, for seven element types in six builds; C and C++.", "Macros expand differently per type and language.")
o("C29", "ThreadSanitizer on the library plus the sequential models; what a history observes among other threads equals what it observed alone; before some cases the library's statics are put back into their initial state, so that several threads use it first.", "All interleavings of private and read-only use; tests are single-threaded.")
o("C30", "Content model of every block over stand-ins for the heap that count and refuse; the container models on the default allocator.", "Tests never let the heap refuse.")
o("C31", "A value tree; the whole tree compared after every operation; one strict allocator per level must end empty.", "Bitwise moves of non-trivial elements, destructors that release memory.")
o("C32", "The compilers' and linkers' verdicts on generated units that also assert sizes and detection macros; the results of programs that use the headers' macros; for compilers that are not here, the macros they predefine (`-undef`) and what must be concluded from them.", "Tests include each header once, in one configuration.")
o("C33", "ThreadSanitizer's happens-before analysis of programs that synchronise through the atomics only, and the values their plain data must have.", "No test covers atomics; on this machine a missing order shows only as a compiler reordering.")
o("C34", "The same history in seven worlds that differ only in what must not matter; everything observable compared after every call.", "Uninitialised reads that happen to find zero, caches keyed by an address, order of block addresses, leftovers of unrelated operations.")
o("C35", "A build of the library that counts executed edges (and comparison callbacks); each call and each sequence of calls against 10 x the promised order + a constant.", "Costs do not show in results; tests are too small for them to show in time.")
def info(f):
    s = open(f).read(); i = s.index('PropertyInfo PROPERTY'); i = s.index('{', i); j = s.index('};', i)
    body = s[i:j]
    strs = lambda t: ''.join(json.loads('"' + x + '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', t))
    m = re.match(r'\{"C\d\d", "\w+",\s*((?:"(?:[^"\\]|\\.)*"\s*)+),\s*(\d+), (\d+)', body)
    k = body.rindex('{'); ass = [json.loads('"' + x + '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', body[k:])]
    fuzz = not (os.path.exists(f'{V}/src/{os.path.basename(f)[:3]}.build') and 'FUZZABLE=0' in open(f'{V}/src/{os.path.basename(f)[:3]}.build').read())
    return strs(m[1]), int(m[2]), int(m[3]), ass, fuzz
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## Properties', '']
seeded = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); seeded.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
for p in props:
    i = p['id']; f = glob.glob(f'{V}/src/{i}_*.cpp')[0]; rule, q, t, ass, fuzz = info(f)
    out += [f"### {i} {p['title']}", '', p['statement'], '',
            f"* **Generated:** {rule}.", f"* **Oracle:** {O[i][0]}", f"* **Beyond the tests:** {O[i][1]}",
            f"* **Bounds:** {q} cases quick, {t} thorough" + (" plus a coverage-guided campaign (one libFuzzer process per core)." if fuzz else " (no coverage-guided mode: real threads, processes or system calls)."),
            ]
    if ass: out.append("* **Assumes:** " + '; '.join(ass) + '.')
    if i in seeded: out.append("* **Planted bugs caught:** " + ', '.join(x for x, _ in seeded[i]) + '.')
    out.append('')
out += [open(V + '/tools/design_tail.md').read().rstrip(), '', '## Planted bugs', '', 'All of them are caught by the quick check of their property (`seeded/<id>`).', '', '| id | property | needs | breaks |', '|---|---|---|---|']
for i in sorted(seeded):
    for x, m in seeded[i]: out.append(f"| {x} | {i} | {m['needs']} | {m['what_it_breaks']} |")
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
