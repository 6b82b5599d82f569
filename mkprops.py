#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the wording lives in one readable place)."""
import json, os
SC='src/sized_chunk/mod.rs'; SI='src/sized_chunk/iter.rs'; SR='src/sized_chunk/refpool.rs'
RB='src/ring_buffer/mod.rs'; RI='src/ring_buffer/iter.rs'; RX='src/ring_buffer/index.rs'; RS='src/ring_buffer/slice.rs'; RR='src/ring_buffer/refpool.rs'
SP='src/sparse_chunk/mod.rs'; SPI='src/sparse_chunk/iter.rs'; SPR='src/sparse_chunk/refpool.rs'
IA='src/inline_array/mod.rs'; II='src/inline_array/iter.rs'
AR='src/arbitrary.rs'; LIB='src/lib.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)

p('C01','Chunk behaves as a bounded sequence',
 "Under any history of in-contract Chunk operations (push and pop at both ends, insert one or many, sorted insert, remove, replace, discard left or right, split, append, take from another chunk's front or back, build from iterators, extend, drain, clear, in-place edits through the slice view) the contents in order, every returned value, the length and the full/empty answers are exactly those of an ordinary sequence with the same fixed capacity. This does not depend on where in its storage the chunk happens to keep its items, on the capacity, or on the element type, and an in-contract call never panics.",
 ['histories','inputs'],'every finite history of in-contract calls, every capacity N (0 included), every element type, every physical offset of the items',
 "Histories x capacities x physical layouts. The unit tests run one capacity (64) through about 20 fixed scripts that start from a fresh chunk; branches that need an item block in the middle of the storage with too little room on either side are not reached.",
 [SC,SI],[('left/right window with shifting to the other side','src/sized_chunk/mod.rs push_front/push_back/append/drain_from_*'),('shorter-side shift','src/sized_chunk/mod.rs insert/remove'),('three-way placement','src/sized_chunk/mod.rs insert_from')],
 [('left,right','half-open window of inhabited slots',SC)],['as_slice','len','is_full','return values'])
p('C02','RingBuffer behaves as a bounded double-ended queue',
 "Under any history of in-contract RingBuffer operations (push and pop at both ends, insert one or many, sorted insert, remove, replace, discard left or right, split, append, take from another buffer's front or back, build from iterators, extend, drain, clear, element writes) the contents in order, every returned value, the length and the full/empty answers are exactly those of an ordinary sequence with the same fixed capacity. This does not depend on where the first item lies in the storage or on whether the contents wrap around its end, nor on capacity or element type, and an in-contract call never panics.",
 ['histories','inputs'],'every finite history of in-contract calls, every capacity N (0 included), every element type, every rotation of both buffers involved',
 "Histories x capacities x rotations. Unit tests use capacity 64 and almost never wrap; none tests insert, insert-many, split or transfers on a wrapped buffer.",
 [RB,RX,RI],[('modular raw index arithmetic',RX),('two-sided wrapped copy','src/ring_buffer/mod.rs copy_from'),('shorter-side shift','src/ring_buffer/mod.rs insert/insert_from/remove')],
 [('origin,length','raw index of the first item and number of items',RB)],['iter','len','get','return values'])
p('C03','SparseChunk behaves as a bounded index-to-value map',
 "Under any history of SparseChunk operations (insert, remove, pop, replace through mutable access, build from optional values, clone, consume) the chunk holds exactly the values a map from indices below the capacity would hold: insert and remove return the previous value, pop takes the value at the lowest inhabited index, and lookup, length, fullness, first index, index listing, entries and equality with standard maps all agree with that map. This holds for every supported capacity, in particular around the sizes where the occupancy bitmap changes its representation.",
 ['histories','inputs'],'every finite history of calls, every capacity from 1 to 1024 that the type supports, every index, every element type',
 "Histories x capacities x indices. Unit tests use capacities 32 and 64 and a handful of indices; capacities above 64 (other bitmap stores) are never exercised.",
 [SP,SPI],[('occupancy bitmap updated with the slot','src/sparse_chunk/mod.rs insert/remove'),('pop via first index','src/sparse_chunk/mod.rs pop')],
 [('map','which slots are inhabited',SP)],['get','len','entries','indices','insert/remove return values'])
p('C04','InlineArray behaves as a bounded vector',
 "Under any history of in-contract InlineArray operations (push, pop, insert, remove, split, drain, clear, extend, build from iterator, clone, edits through the slice view, moves of the array value itself) contents in order, returned values, length and full/empty answers are exactly those of an ordinary vector bounded by the advertised capacity. This holds for every pairing of element type and host type, including zero-capacity and zero-sized-element pairings.",
 ['histories','inputs','configurations'],'every finite history of calls; every (element type, host type) pair of sizes and alignments',
 "Histories x type pairs. Unit tests push one or two elements into about eight pairs and never run insert, remove or split on non-empty arrays.",
 [IA,II],[('length word plus element area in the host storage','src/inline_array/mod.rs data/len_mut'),('shift on insert/remove','src/inline_array/mod.rs insert/remove')],
 [('length word','number of live elements, stored inside the host bytes',IA)],['deref slice','len','return values'])
p('C05','InlineArray capacity, size, placement and alignment',
 "For every element type and host type, the advertised capacity is (host size - size of usize) / element size, zero when the host's alignment cannot satisfy the element's, and unbounded for zero-sized elements; construction panics only if the host cannot hold the length word or a zero-sized element is over-aligned. The array occupies exactly the host's size (rounded up to its own alignment), and filled to capacity every element lies inside it, correctly aligned, without overlapping another element or the stored length. Option-wrapping never confuses a present array with an absent one.",
 ['configurations','inputs'],'every pair of element and host type: sizes above, at and below the word size, alignments 1 to 256 on either side',
 "A two-dimensional space of type layouts; tests pin about ten capacity values and check alignment of a single element in three of them.",
 [IA],[('const capacity computation','src/inline_array/mod.rs capacity'),('header before or after the elements by alignment','src/inline_array/mod.rs HEADER_FIRST/ELEMENT_SKIP/HEADER_SKIP')],None,['CAPACITY','size_of','element addresses'])
p('C06','Every stored item is dropped exactly once',
 "Over any history of operations on any of the containers, including items moved between containers, partially consumed iterators and rejected calls, each item is at every moment owned by exactly one place: it is dropped exactly once, at the moment it is discarded, overwritten or its owner goes away. Nothing that was moved out is dropped again by the container, and nothing is leaked or kept alive past its removal.",
 ['histories','inputs'],'every finite history of calls without panicking user code, over all four containers and their iterators, refpool-held containers included',
 "Histories. Each unit test counts drops for one fixed push/pop script per container; transfers, discards, inserts, splits, partial drains and replacements are not counted.",
 [SC,SI,RB,RI,RX,SP,SPI,IA,II],[('ptr::read / ptr::write ownership transfer',SC),('force_read/force_write/force_drop',RB),('bitmap-guided drop',SP),('drop_contents',IA)],None,['element destructor calls'])
p('C07','Panics in user code never corrupt a container',
 "If user-supplied code (element clone, destructor, comparison or hashing, an iterator, a generator) panics at any point inside a container operation, then no item is ever dropped twice or observed uninitialised or after being moved out, a container that was only read is unchanged, and the container being modified is left valid: it shows only live items it already held or was being given, and every later operation on it works. Items may be leaked, never duplicated.",
 ['fault_sequences','histories'],'every history with a panic injected at any single call-back (n-th clone, drop, comparison, iterator step), on all containers, followed by any further history',
 "Fault points x histories. Tests cover a panicking clone of one chunk and one panicking iterator, visible only under Miri; panicking destructors are not covered at all.",
 [SC,SR,RB,RR,SP,SPR,IA,AR],[('right index advanced per clone','src/sized_chunk/mod.rs Clone'),('pretend-empty during insert-many','src/sized_chunk/mod.rs write_from_iter, src/ring_buffer/mod.rs insert_from'),('discarding operations','clear/drop_left/drop_right')],None,['element destructor calls','contents after catch_unwind'])
p('C08','Out-of-contract calls are refused without side effects',
 "A call that would exceed capacity, index past the end, take more items than exist, take from an empty container, or use an impossible range is refused in the documented way (panic, or None where the API returns an option), in debug and in optimised builds alike and for every argument value up to the largest integer. After the refusal every container involved holds exactly what it held before (a bulk extend may keep the items that fitted), and a rejected value is dropped once.",
 ['inputs','histories'],'every reachable state x every invalid argument, including arguments near the integer maximum whose sums overflow; debug and release arithmetic',
 "Inputs x states x build modes. Tests check four refusals, in debug mode only, with no look at the state afterwards.",
 [SC,RB,RS,SP,IA],[('explicit bounds and capacity checks','every mutating method')],None,['panic/no panic','contents before and after'])
p('C09','Iterators yield each item exactly once, from both ends',
 "Every iterator over every container (borrowing, mutable, consuming, draining, optional-slot, index and entry iterators) yields exactly the container's items in order, each once, whatever mixture of front and back steps is used, keeps returning nothing once exhausted where it promises to be fused, and its size hint always brackets (and where it promises an exact length, equals) what remains. Draining removes exactly the yielded items and leaves the rest in order; mutable iteration hands out distinct items and writes through it land in the item yielded.",
 ['inputs','histories'],'every container state x every interleaving of next/next_back/nth/size_hint and early drop',
 "Interleavings x states. Tests iterate forward to the end from one layout; mixed-direction and partial consumption is tested once.",
 [SI,RI,RX,SPI,II],[('remaining counter with two raw cursors',RI),('bitmap-driven iteration',SPI),('pop-based consumption','Iter/Drain/OwnedIter')],None,['yielded items','size_hint/len','contents after drain'])
p('C10','RingBuffer slices show and touch exactly their window',
 "A slice or mutable slice of a RingBuffer, and any nesting of sub-slices and splits of it, has the length and items of the requested logical range whatever the rotation, for every way of reading it (index, checked get, first/last, iteration, search, comparison, copying out). Indexing is bounded by the slice itself, never by the underlying buffer, writes through a mutable slice change exactly the addressed items, and the two halves of a split never reach each other's items.",
 ['inputs','histories'],'every buffer state and rotation x every tree of sub-ranges and splits x every read/write through them',
 "There is no test of the slice types at all.",
 [RS,RB,RI],[('range offset added to the raw origin',RS),('range parsing','src/ring_buffer/mod.rs parse_range')],None,['Index/IndexMut','get','iter','to_owned'])
p('C11','Equality, order, hash and debug depend on contents only',
 "Comparing, ordering, hashing and debug-printing a container depends only on its logical contents, never on layout, rotation, capacity left over or history: equality and ordering agree with those of the plain sequence (or map), also across the types that can be compared with each other, equal containers hash equally, and a container that can be borrowed as a slice compares, orders and hashes like that slice. Debug output lists the items in order.",
 ['inputs','histories'],'every pair of contents (equal, prefix, differing, partially ordered values) x every pair of layouts/histories producing them',
 "Pairs of contents x pairs of layouts; tests compare containers built the same way and never hash one.",
 [SC,RB,RS,SP,IA],[('content-based trait impls','PartialEq/PartialOrd/Ord/Hash/Debug/Borrow impls')],None,['==','cmp','Hasher output','format!'])
p('C12','Clones and pooled copies are equal and independent',
 "Cloning any container (plainly, out of a RingBuffer slice, or through the refpool interface) yields a container with the same capacity behaviour and equal contents in the same order, made by cloning each item exactly once; afterwards no operation on one is visible in the other. A container created in pool memory starts empty and works normally even when that memory was used before.",
 ['histories','inputs'],'every container state and layout x every later history on original and copy; pool slots fresh or reused',
 "States x later histories; tests clone one straight-line-built container each.",
 [SC,SR,RB,RR,RS,SP,SPR,IA],[('slot-by-slot clone','Clone impls'),('in-place clone and default','PoolClone/PoolDefault impls')],None,['contents of both','clone count'])
p('C13','Byte containers act as bounded FIFO pipes for std::io',
 "Writing bytes into a Chunk or RingBuffer of bytes appends the longest prefix that fits and reports its length; reading removes that many bytes from the front in order, fills only the part of the target reported, and reports the number read. Any interleaving with the other operations keeps the byte stream intact, for every fill level, rotation and buffer length, including empty and full.",
 ['histories','inputs'],'every interleaving of writes, reads and other operations; every fill level and rotation; every buffer length',
 "Interleavings x rotations; one test writes once to and one reads from a non-wrapped RingBuffer, Chunk is not tested.",
 [SC,RB],[('io::Write','src/sized_chunk/mod.rs, src/ring_buffer/mod.rs copy_from_slice'),('io::Read','pop-based read')],None,['returned counts','buffer bytes'])
p('C14','Bulk moves between containers conserve items and order',
 "Moving items in bulk (append, taking a count from the front or back of another container, splitting, whole-container take-over, converting an InlineArray into a Chunk by value or by draining it) neither loses, duplicates nor reorders items: the two containers' contents put together in the operation's stated order are unchanged. Both containers stay fully usable, and a move is possible exactly when the receiver has room and the source has enough.",
 ['histories','inputs'],'every pair of states (length, offset/rotation of both sides), every count, every capacity pair for conversions',
 "Pairs of layouts x counts; tests do one append and one split per type.",
 [SC,RB,RX,IA],[('bulk copy between storages','force_copy_to / copy_from'),('InlineArray conversion','src/sized_chunk/mod.rs From<InlineArray>')],None,['contents of both containers'])
p('C15','Sorted insertion and searching agree with sorted order',
 "Inserting into a sorted Chunk or RingBuffer by value keeps it sorted and adds exactly that value, whatever the layout and however many equal items exist; on unsorted contents it still only adds the value. Searching a RingBuffer or its slices finds an index holding an equal item if and only if one exists, and otherwise the index where insertion keeps the order; sorting items with distinct keys in place yields the sorted permutation.",
 ['inputs','histories'],'every sorted content with duplicates, every rotation/offset, every probe; custom orders that ignore part of the item',
 "Values x layouts; one doc example inserts 3 into 0..5.",
 [SC,RB,RS],[('binary search then insert','insert_ordered'),('array-ops search over the index operator','src/ring_buffer Array impls')],None,['contents after insert_ordered','search results'])
p('C16','Arbitrary instances are valid for every byte input',
 "For every byte string, generating a container from it either fails cleanly or yields a valid container within its capacity whose items are exactly the ones the byte string encodes, in order, consuming the input no further than its size hint allows. The same input always gives the same container, and an element generator that fails part-way leaks and corrupts nothing.",
 ['inputs'],'every byte string x every container, capacity and element generator, both entry points',
 "Inputs; no test touches the implementations.",
 [AR],[('bounded collection from the byte iterator',AR),('size_hint',AR)],None,['arbitrary()','arbitrary_take_rest()','size_hint()'])
p('C17','Dishonest iterators cannot break containers',
 "If an iterator passed to a bulk operation lies about its length (too long, too short, changing between calls, absurdly large) or has side effects, the operation either panics or completes, but it never writes or exposes anything outside the container's own live items: afterwards the container is valid, within capacity, shows only live items it held or was given, each at most once, and remains usable. With too many items offered for the room reported, the excess is never stored.",
 ['inputs','histories'],'every container state x every (reported, actual, changing) length behaviour x every insertion point, debug and optimised builds',
 "Adversarial inputs x states; tests cover four fixed combinations on Chunk and none on RingBuffer.",
 [SC,RB,SP,IA],[('length captured before writing','insert_from / write_from_iter'),('take(n) and post-check','write_from_iter, src/ring_buffer/mod.rs insert_from')],None,['contents and liveness after the call'])
p('C18','Safe calls cause no invalid memory access',
 "No sequence of safe API calls on the containers, with any element type (zero-sized, over-aligned, padded, heap-owning), makes the crate read uninitialised or out-of-bounds memory, create a misaligned or dangling reference, or produce an invalid value. This is judged by an interpreter that checks every memory access, not by whether the result happens to look right.",
 ['histories','inputs','programs'],'every finite history of safe calls on every container, capacity and element layout',
 "The unit tests do pass natively even where an access is invalid; upstream's Miri job runs only those fixed scripts.",
 [SC,SI,RB,RI,RX,RS,SP,SPI,IA,II],[('raw pointer arithmetic into the storage','ptr/mut_ptr/data/len_mut helpers'),('MaybeUninit storage','all containers')],None,['Miri verdict'])
p('C19','Mutable references handed out never alias',
 "All mutable references obtained through one mutable iterator, or through disjoint mutable views, can be held at the same time, used in any order and interleaved with further iteration: each stays valid and exclusive, so writes through one are never seen through or lost by another. This is judged under Rust's aliasing model as well as by the values read back.",
 ['histories','programs'],'every container state x every order of obtaining, holding, writing and reading the references',
 "Tests never hold two of the references at once, and native execution cannot see the violation.",
 [SPI,RI,RS,SC,IA],[('per-item raw pointers','src/ring_buffer/iter.rs IterMut, src/sparse_chunk/iter.rs IterMut/OptionIterMut')],None,['Miri (Tree Borrows) verdict','values read back'])
p('C20','Storage is fixed-size and inside the container',
 "A container's footprint is fixed by its type: items always live inside the container value itself, aligned and without overlapping, no operation on it ever allocates from the heap, and it can be moved in memory at any time without affecting its contents. A Chunk takes two words plus capacity times the item size (plus alignment padding), and wrapping any container in an Option never confuses present with absent.",
 ['histories','configurations'],'every history of calls, every capacity and element layout, relocation of the container between any two calls',
 "Histories x layouts; a single test checks one Option-wrapped RingBuffer.",
 [SC,RB,SP,IA,LIB],[('inline MaybeUninit<[A; N]> storage','all containers')],None,['element addresses','size_of','global allocator calls'])
p('C21','Constant-time operations leave the other items in place',
 "Operations documented as constant time do not relocate the items already stored: pushes and pops at either end of a RingBuffer, pops at either end of a Chunk, pushes to a side of a Chunk which has room (in particular repeated pushes to one side of an empty one), push and pop of an InlineArray, replacing an item, and SparseChunk insert and remove at other indices all leave every remaining item at its address; so do discarding or splitting off items at one end, and taking items out of another container for what stays in it. Inserting or removing a single item of a Chunk or RingBuffer moves the items on one side of it only.",
 ['histories','inputs'],'every reachable state x every such operation',
 "Tests look at values only, so a correct but linear-time implementation passes them.",
 [SC,RB,RX,SP,IA],[('ring index stepping',RX),('left/right window stepping',SC)],None,['addresses of items before and after'])
p('C22','Behaviour is the same in every build configuration',
 "The same history of calls gives the same observable results (values, panics or refusals, lengths, orders) whether the crate is built with or without debug assertions and overflow checks, with or without the standard library feature, and with or without its optional features. No feature or build mode adds or removes a refusal or changes a result.",
 ['configurations','histories'],'every history of calls x {debug, optimised} x {std, no_std} x optional feature sets',
 "Tests run in one configuration (debug, all features).",
 [SC,RB,RX,SP,IA,LIB],[('debug_assert! and cfg(feature) sites','throughout src')],None,['transcripts of results per configuration'])
p('C23','Operations do the documented amount of work',
 "Every operation calls user code (comparisons, clones, hashes, prints, drops, iterator steps) at most as often as its documented cost allows, in every state of the container: inserting into or searching a sorted container takes a logarithmic number of comparisons, cloning, hashing, printing or comparing takes one step per item, moving items around (push, pop, rotate, split, append, drain) takes none at all, and no more items are pulled from an iterator than can be used, so bounded operations end even on endless iterators.",
 ['histories','inputs'],'every operation x every size, arrangement and key, every iterator length including endless',
 "Tests look at results only, so a correct but slower implementation, or one that reads an endless iterator to its end, passes them.",
 [SC,RB,RS,SP,IA],[('binary search then insert','insert_ordered'),('array-ops search over the index operator','src/ring_buffer Array impls'),('bounded collection','from_iter / extend / collect_from')],None,['number of calls into user code per operation'])
p('C24','The compiler rejects misuse of borrowed views',
 "Every safe program in which a view of a container (reference, iterator, slice, drain) is used after the container was changed, moved or dropped, or in which overlapping exclusive views are used in turn, is rejected by the compiler; programs which keep views apart are accepted. The same goes for moving or sharing across threads (never allowed where the items do not allow it, and allowed for containers whose items do), for shortening item lifetimes through exclusive views, for duplicating exclusive or owning views, and for items whose data is dropped before the container; access without checks needs an unsafe block.",
 ['programs'],'every program of safe calls on every container type and view, every element type',
 "Unit tests are programs that compile, so they cannot show that a wrong program is refused; a signature with one lifetime too few passes them all.",
 [SC,SI,RB,RI,RS,SP,SPI,IA,II],[('lifetimes of views','method signatures of the containers, iterators and slices'),('auto traits and PhantomData markers','iterator and slice types')],None,['verdict of the compiler per generated program'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
