#!/usr/bin/env python3
# writes properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=state
    if observe: a['observe_at']=[observe]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('C01','A bit set behaves as a set of non-negative integers',
 'After any sequence of set, clear, flip, assignment, swap, and/or/xor and or-and operations a bit set holds exactly the integers a mathematical set would hold, and membership, next-set, next-clear, cardinality, emptiness, equality, intersection tests and the printed form all report that set. Its wire form is the canonical one (length in bytes without trailing zero bytes, then the bits in words) and decoding it, however the bytes are fragmented and even with padding zero bytes, gives back an equal set.',
 ['histories','inputs'],'every operation sequence up to the depth bound over two sets and boundary bit numbers; every run of bits (with holes) up to 3 words; both byte orders',
 'testBitSet checks a few dozen hand-picked sets; carries across 64-bit words, shrinking after a clear and mixed-size operands depend on the history.',
 ['src/misc/bitSet.cpp','src/misc/pv/bitSet.h'],[('word vector kept without trailing zero words','src/misc/bitSet.cpp: recalculateWordsInUse, expandTo'),('word encode/decode','src/misc/bitSet.cpp: serialize, deserialize')],
 'public methods of the bit set; bytes produced')

p('C02','A byte buffer stores and returns exactly what was put in it',
 'For any sequence of relative or absolute puts and gets of integers, floating-point numbers and arrays of any supported width, in either byte order, with any interleaving of position, limit, flip, rewind and clear calls that stays within the limits, a byte buffer returns exactly the values stored, in the requested byte order on the wire, moves its position by exactly the size transferred and touches no other byte.',
 ['histories','inputs'],'every operation sequence up to the depth bound on buffers in both byte orders, aligned and unaligned positions; all value widths with boundary values',
 'tests use aligned positions and one or two operations in a row.',
 ['src/misc/pv/byteBuffer.h','src/misc/byteBuffer.cpp'],[('byte swapping','src/misc/pv/byteBuffer.h: swap, store/load helpers'),('cursor','src/misc/pv/byteBuffer.h: setPosition, flip, align, put/get')],
 'bytes in the underlying storage; returned values; position/limit/remaining')

p('C03','Sizes, strings and status values survive the wire, however it is fragmented',
 'A size (0 to 2^31-1), a string, a substring or a status object written to the wire has exactly the documented encoding and is read back unchanged in either byte order, whatever the capacity and fill level of the sending buffer and wherever the receiver runs out of data and has to wait. Merging status objects keeps the most severe one with its own message.',
 ['inputs','configurations','histories'],'sizes around every encoding boundary, strings and substrings of every length around the buffer capacity, every sending buffer capacity and fill level in range, every single and double split of the received bytes',
 'tests serialise into one large buffer, so the refill and flush paths are hardly ever executed.',
 ['src/misc/serializeHelper.cpp','src/misc/status.cpp','src/misc/pv/serializeHelper.h','src/misc/pv/status.h','src/factory/PVDataCreateFactory.cpp'],
 [('size escape','src/misc/serializeHelper.cpp: writeSize/readSize'),('piecewise string copy','serializeString, serializeSubstring, deserializeString'),('status codes','src/misc/status.cpp')],
 'bytes on the wire; decoded values')

p('C04','Type descriptions round-trip over the wire',
 'Encoding the description of any type (scalars, bounded strings, all kinds of arrays, structures, unions, variants, arrays of these, with or without an ID) produces the bytes the protocol defines, and decoding them yields an equal type with the same field names, order and IDs, in either byte order and with any fragmentation. Every encoding consumes exactly its own bytes.',
 ['inputs','configurations'],'every type tree up to a node bound over all leaf kinds; both byte orders; every split of the bytes',
 'tests round-trip about a dozen fixed types in one buffer.',
 ['src/factory/FieldCreateFactory.cpp','src/factory/TypeFunc.cpp'],[('type codes','src/factory/FieldCreateFactory.cpp: serialize/deserialize of each Field class'),('decoder dispatch','FieldCreate::deserialize')],
 'encoded bytes; equality of decoded type')

p('C05','Equal type definitions are one shared object, from any threads',
 'Type descriptions are immutable and interned: as long as a description is in use, creating an equal one returns that same object, different ones are never confused, and releasing the last user frees it. This holds for every interleaving of threads which concurrently create, look up and release equal types, including concurrent first use of the global factories, without data races, deadlock or use of freed memory.',
 ['schedules','histories','inputs'],'all interleavings within the preemption bound of 2-3 threads creating and dropping equal types and calling the global factories for the first time; all pairs of small type trees',
 'the window between the last release and the removal from the cache is a few instructions wide; tests are single threaded here.',
 ['src/factory/FieldCreateFactory.cpp','src/pv/pvIntrospect.h','src/factory/PVDataCreateFactory.cpp','src/factory/StandardField.cpp'],[('field cache','src/factory/FieldCreateFactory.cpp: FieldCreate::Helper::cache, Field::~Field'),('one-time init','getFieldCreate, getPVDataCreate, getStandardField')],
 'identity of returned descriptions; happens-before race detection on every memory access of the library')

p('C06','Values round-trip over the wire in full',
 'Encoding any value and decoding it into a value of the same type reproduces an equal value, whatever the receiving object held before; the bytes are those the protocol defines for both byte orders and every byte is consumed. This holds for every capacity and fill level of the sending buffer, every fragmentation of the received bytes, and whether or not the transport offers direct transfer of array data. A part of an array or string (offset and count) is sent as exactly that part.',
 ['inputs','configurations','histories'],'every type tree up to a node bound, boundary values for each leaf, old contents of the receiver, both byte orders, all buffer capacities in range and all single splits (plus byte-at-a-time)',
 'tests use a big buffer and a handful of types; decoding over old contents and partial buffers is untested.',
 ['src/factory/PVDataCreateFactory.cpp','src/factory/PVStructure.cpp','src/factory/PVUnion.cpp','src/factory/PVStructureArray.cpp','src/factory/PVUnionArray.cpp'],
 [('array chunking','src/factory/PVDataCreateFactory.cpp: PVValueArray::serialize/deserialize'),('element null markers','PVStructureArray/PVUnionArray serialize/deserialize'),('union selector','PVUnion::serialize/deserialize')],
 'bytes on the wire; decoded values')

p('C07','A partial update changes exactly the selected fields',
 'Encoding a structure with a bit set and decoding it with the same bit set makes precisely the selected fields (and, for a selected structure, everything below it) equal to the source, leaves every other field of the receiver unchanged, and consumes exactly the bytes written. The same holds for encoding part of an array.',
 ['inputs','configurations'],'every bit set over every structure shape up to the size bound, all fragmentations and both byte orders; every offset and count for arrays',
 'tests try a few bit patterns on one structure.',
 ['src/factory/PVStructure.cpp','src/factory/PVDataCreateFactory.cpp','src/factory/PVStructureArray.cpp','src/factory/PVUnionArray.cpp'],[('offset based selection','src/factory/PVStructure.cpp: serialize/deserialize with BitSet'),('sub-range encode','serialize(buffer, flusher, offset, count)')],
 'bytes on the wire; receiver contents before and after')

p('C08','Malformed input is rejected without corrupting memory',
 'Decoding arbitrary bytes as a type description, a value, a partial update, a bit set or a status either succeeds or throws a standard exception: it never reads or writes outside its buffers, crashes, loops, or leaves the receiving object unusable (nesting deep enough to exhaust the stack is a known finding). Anything that was accepted can be printed, compared, re-encoded and decoded again to an equal object.',
 ['inputs','fault_sequences'],'all byte strings up to a length bound over the significant codes; every truncation and every single-byte replacement of every valid message of the catalogue',
 'tests only feed well-formed messages.',
 ['src/factory/FieldCreateFactory.cpp','src/factory/PVUnion.cpp','src/factory/PVStructure.cpp','src/factory/PVDataCreateFactory.cpp','src/misc/bitSet.cpp','src/misc/status.cpp','src/misc/serializeHelper.cpp'],
 [('type decoder','FieldCreate::deserialize'),('selector and size checks','PVUnion::deserialize, readSize')],
 'exceptions; address sanitizer; object usability afterwards')

p('C09','Shared vectors: copies share until written, frozen data never changes',
 'A shared vector behaves as an independent sequence under push, pop, insert-at-end, resize, reserve, slice, clear, swap, assignment and element writes after being made unique: no operation on one vector changes what another one sees except through explicitly shared mutable handles. Freezing and thawing never let data that is visible as constant be modified, conversions to and from untyped vectors preserve type and contents, and out-of-range checked access always throws.',
 ['histories','schedules'],'every operation sequence up to the depth bound on three handles of one or several buffers; interleavings of two threads which own handles to the same data',
 'sharing bugs need a particular history of copies, slices and capacity left over from earlier operations.',
 ['src/misc/pv/sharedVector.h'],[('copy on write','src/misc/pv/sharedVector.h: make_unique, reserve, resize, push_back'),('freeze/thaw','freeze, thaw, static_shared_vector_cast, shared_vector_convert')],
 'contents of all handles after each step')

p('C10','Scalar conversion follows one defined table',
 'Converting any scalar value to any scalar type (booleans: only from and to boolean and string), singly, for whole arrays, through a value field or a type-erased scalar, gives the same documented result: exact where the target can represent the value, truncation toward zero for fractions, modular for narrowing integers, clipping for double to float, decimal/hex/octal parsing and printing for strings, and an exception (with the failing element identified) for text that does not denote a value of the target type or for pairs that have no conversion. Printing an integer or boolean and parsing it back is the identity. Each scalar type has one name, one element size and one classification (integer, unsigned, numeric, primitive); unknown names and type codes are refused.',
 ['inputs'],'all ordered pairs of the 12 scalar types with boundary values of each; all short strings over a numeric alphabet for each target type',
 'tests cover a sample of pairs and values; the table has 144 pairs and four entry points.',
 ['src/misc/typeCast.cpp','src/misc/pv/typeCast.h','src/misc/parseToPOD.cpp','src/factory/PVDataCreateFactory.cpp','src/misc/pv/sharedVector.h','src/factory/Convert.cpp','src/factory/TypeFunc.cpp'],
 [('conversion dispatch','src/misc/typeCast.cpp: castUnsafeV'),('text parsing','src/misc/parseToPOD.cpp')],
 'converted values and exceptions')

p('C11','A type-erased scalar holds exactly one typed value',
 'A type-erased scalar always holds exactly the value and type last assigned, copied, moved or swapped into it; typed access succeeds exactly for the stored type, converting access agrees with scalar conversion, an empty one refuses both, and a moved-from or cleared one is empty. No sequence of copies, moves, swaps and assignments leaks or double-frees.',
 ['histories'],'every sequence up to the depth bound of construct, assign, copy, move, swap and clear over two objects and all stored types',
 'the nine swap cases times move and self-assignment are reached only by specific pairs of states.',
 ['src/misc/anyscalar.cpp','src/misc/pv/anyscalar.h'],[('tagged storage','src/misc/anyscalar.cpp: swap, move constructor, clear')],
 'type(), ref, as, printed form; address sanitizer')

p('C12','Equality is deep, structural and an equivalence',
 'Two type descriptions are equal exactly when they have the same kind, ID, field names and order, and element types; two values are equal exactly when their types are equal and every leaf, selected union member and array element is equal (single scalars and scalar arrays compare by element type and content, whatever their declared bounds). The relation is reflexive, symmetric and consistent with inequality, never crashes, and unset unions and null elements are only equal to each other.',
 ['inputs'],'all pairs from the exhaustive catalogue of small types and of small values (including unset unions and null elements)',
 'tests compare a few equal and a few different pairs; a missed comparison only shows on the one pair differing there.',
 ['src/factory/Compare.cpp'],[('recursive comparison','src/factory/Compare.cpp: compareFieldTypes, compareField, operator==')],
 'result of ==/!= for each pair')

p('C13','Copies are equal to the source and independent of it',
 'Creating a value from another value, or copying one value into another of compatible type, gives a value equal to the source which shares no mutable state with it: later changes to either (including inside nested structures and unions, and replacing the contents of arrays) are never visible in the other; only the element objects of structure and union arrays are shared. Incompatible types and immutable targets are refused without partial effects; copying with a mask changes exactly the selected fields.',
 ['inputs','histories'],'all pairs of small values; every single-leaf mutation of either side after the copy; every mask',
 'aliasing only shows when a particular leaf is changed after a particular way of copying.',
 ['src/factory/PVDataCreateFactory.cpp','src/factory/PVStructure.cpp','src/factory/PVUnion.cpp','src/factory/PVStructureArray.cpp','src/factory/PVUnionArray.cpp'],
 [('deep copy','PVStructure::copy/copyUnchecked, PVUnion::copy, createPVField/createPVStructure(clone)'),('array data sharing by frozen vectors','PVValueArray::replace/view')],
 'contents of both sides')

p('C14','Structure fields are numbered depth-first and found by name, path or number',
 'In any value tree the top has number 0, fields are numbered consecutively in depth-first order, each field knows the range below it, its parent, its own name and its full dotted path; looking a field up by name, by path or by number finds exactly that field with the type requested, and nothing for names, paths, numbers or types that do not exist, with the throwing variants throwing exactly then. Top level lookups in type descriptions agree with those in values.',
 ['inputs','histories'],'every structure tree up to the node bound; every valid and a closed set of invalid paths and numbers; queried in every order',
 'offsets are computed lazily and cached, so results depend on shape and on the order of queries.',
 ['src/factory/PVStructure.cpp','src/factory/PVField.cpp','src/factory/FieldCreateFactory.cpp','src/pv/pvData.h'],[('lazy offsets','src/factory/PVField.cpp: computeOffset'),('path lookup','src/factory/PVStructure.cpp: getSubFieldImpl'),('type path lookup','Structure::getFieldIndex, getField')],
 'returned fields and numbers')

p('C15','A union holds at most one member and always reports it truthfully',
 'After any sequence of select, set, copy, clear and decode operations a union either has no selection and no value, or its selected index, name and value agree with each other and with its type; variant unions hold any value or none. Selecting or setting an unknown member, or a value of the wrong type, or copying into an immutable union, is refused and leaves the union unchanged. The member a union type suggests for a scalar or scalar array type is of that kind, and of exactly that type when there is one.',
 ['histories'],'every operation sequence up to the depth bound on regular and variant unions, including immutable ones',
 'inconsistent selector/value pairs only appear after a refused or repeated operation.',
 ['src/factory/PVUnion.cpp'],[('selector/value pair','src/factory/PVUnion.cpp: select, set, copyUnchecked, deserialize')],
 'getSelectedIndex/Name, get, equality, wire form')

p('C16','Array fields behave as lists within their capacity rules',
 'Scalar, structure and union array fields behave as lists under replace, swap, reuse, set-length, set-capacity, append, remove and compress: length and contents are exactly those of the list model, capacity is at least the length, growing keeps the existing elements, a fixed or bounded array refuses what it must without losing its contents, views obtained earlier never change, and a request which cannot be satisfied for lack of memory fails and leaves the array as it was.',
 ['histories'],'every operation sequence up to the depth bound on each array class (variable, bounded, fixed; mutable and immutable)',
 'resizing and removal bugs depend on shared storage and stale capacity left by earlier operations.',
 ['src/factory/PVDataCreateFactory.cpp','src/factory/PVStructureArray.cpp','src/factory/PVUnionArray.cpp','src/factory/PVArray.cpp','src/pv/pvData.h'],
 [('length/capacity rules','setLength, setCapacity, checkLength'),('append/remove/compress','src/factory/PVStructureArray.cpp, PVUnionArray.cpp')],
 'length, view contents, exceptions')

p('C17','Sub-array copy moves exactly the requested elements',
 'Copying part of an array into another with offsets, strides and count sets exactly the addressed destination elements to the addressed source elements, keeps all others, extends the destination only as far as the last element written, and works when source and destination are the same data. Requests that do not fit the source, differ in element type or target an immutable array throw and change nothing.',
 ['inputs'],'every combination of small lengths, offsets, strides and counts for scalar, string, structure and union arrays, and same-array copies',
 'the space of offset, stride and length combinations is far larger than the tests sample; off-by-one errors sit at the edges.',
 ['src/factory/pvSubArrayCopy.cpp'],[('strided copy','src/factory/pvSubArrayCopy.cpp: copy templates')],
 'destination contents')

p('C18','Builders produce exactly the type or value that was described',
 'Any sequence of field-builder and value-builder calls yields precisely the type (fields in call order, for the value builder in alphabetical order; IDs, nesting, bounds, unions and arrays) or value described, and a builder can be reused or start from an existing definition without affecting results already handed out. Illegal or empty names, names used again for a different type (the value builder replaces leaves), null fields, ending or building at the wrong nesting level and kinds that make no sense are refused.',
 ['programs','inputs'],'every builder program up to the length bound over the builder operations',
 'programs interleave nesting, IDs and array wrappers; tests show a few well-formed programs.',
 ['src/factory/FieldCreateFactory.cpp','src/pv/valueBuilder.cpp','src/pv/valueBuilder.h','src/pv/pvIntrospect.h'],[('nesting','FieldBuilder::addNested*/endNested, reset'),('name validation','createStructure/createUnion'),('value builder tree','src/pv/valueBuilder.cpp')],
 'resulting type/value compared with the program')

p('C19','A request string is parsed into exactly the structure it denotes',
 'Parsing a field-selection request yields the structure the request grammar defines (record, put, get and field lists, nested fields with braces or dots, options in brackets, in any combination) for every well-formed request. Two siblings of one name are refused. Any other text is refused with a message (by exception or null result alike) or read leniently: never a crash, hang or out-of-bounds access.',
 ['inputs'],'all strings generated by the grammar up to a size bound with an independent parser as oracle; all strings up to a length bound over the significant characters',
 'the parser is hand written with index arithmetic; tests try about thirty strings.',
 ['src/copy/createRequest.cpp','src/copy/pv/createRequest.h'],[('index based parser','src/copy/createRequest.cpp: findMatchingBrace, parse*, createRequestInternal')],
 'resulting structure or message')

p('C20','Request mapping selects and copies exactly the requested fields',
 'Computing a mapping from a full structure and a request gives a reduced type holding exactly the requested fields with the requested nesting; translating field masks and copying values between the two keeps corresponding fields equal and touches no others, in both directions. A request naming unknown fields is reported as a warning or failure as documented, and a failed computation leaves the mapper with the mapping it had before. Options given to a field in the request do not change what is selected.',
 ['inputs'],'every selection of fields from every structure in the catalogue, every mask in both directions',
 'tests use two or three structures and a few masks.',
 ['src/copy/requestmapper.cpp','src/copy/pv/createRequest.h'],[('offset maps','src/copy/requestmapper.cpp: compute, _compute, _map'),('masked copy','copyBaseToRequested/copyBaseFromRequested')],
 'reduced type, masks, values')

p('C21','Compressing a change mask preserves what it selects',
 'Compressing the change mask of a structure never changes the set of leaf fields it selects, selects a structure as a whole exactly when everything below it is selected, and reports whether anything is selected. Doing it twice is the same as doing it once.',
 ['inputs'],'every mask over every structure tree up to the node bound',
 'tests try a handful of masks on one structure.',
 ['src/pvMisc/bitSetUtil.cpp'],[('recursive compression','src/pvMisc/bitSetUtil.cpp')],
 'mask before and after')

p('C22','JSON printing and parsing are inverse and strict',
 'Printing a value that JSON can represent (finite numbers, UTF-8 text, no unions or null elements) and parsing it back into a value of the same type reproduces the value, and reports exactly the fields assigned; printing with a mask prints exactly the selected fields. Parsing text into a given structure or as a new structure assigns exactly what the text says regardless of line breaks and comments, an array in the text replaces the elements which the field had, and any text that is not valid (JSON, with the comments and JSON5 extensions which the parser of EPICS allows) or does not fit the target throws without crashing or corrupting memory.',
 ['inputs','histories'],'all small types with boundary values; every mask; all JSON documents and token sequences up to a size bound, with every placement of line breaks, into every target of the catalogue, empty or already filled',
 'tests parse three documents; mis-shaped documents and multi-line input are not tried.',
 ['src/json/jprint.cpp','src/json/parseany.cpp','src/json/parseinto.cpp','src/json/parsehelper.cpp'],[('parser stack','src/json/parseinto.cpp'),('line feeding','src/json/parsehelper.cpp'),('mask expansion','src/json/jprint.cpp: expandBS')],
 'printed text; resulting value; assigned mask; exceptions')

p('C23','Printed text is faithful: escapes are reversible, formats show what is selected',
 'Escaped or quoted text contains only printable characters and un-escapes to the original for every byte string; printing a value in raw, normal or JSON form shows exactly the selected fields with their names, types and values, keeps stream indentation as it was, and never crashes for any value, including unset unions and null elements.',
 ['inputs'],'all strings up to length 2 over all bytes (plus longer ones over the special characters); every mask over the value catalogue for each format',
 'tests compare a few outputs; single characters can be mangled unnoticed.',
 ['src/factory/printer.cpp','src/factory/PVField.cpp','src/factory/PVStructure.cpp','src/factory/PVStructureArray.cpp','src/factory/PVUnion.cpp','src/misc/pv/typeCast.h'],[('escaping','src/factory/printer.cpp: escape, maybeQuote'),('selection','expandBS, printRaw')],
 'text produced')

p('C24','Timer callbacks run once, in order, when due, and never after cancel or close',
 'Under every interleaving, a scheduled callback runs exactly once per expiry, never before its time, in order of due times, and as soon as it is due and the timer thread is free; a periodic one keeps its schedule. Once cancel has reported success the callback does not run for that schedule, closing runs nothing further and tells each pending callback exactly once that the timer stopped, and callbacks may themselves schedule, cancel and query without deadlock or failure.',
 ['schedules','histories'],'all interleavings within the preemption bound, over virtual time, of one timer thread and 1-2 client threads running short programs of schedule, cancel, query and close calls, with callbacks that re-enter the timer',
 'tests use real time and sleeps, so only the fastest interleavings occur.',
 ['src/misc/timer.cpp','src/misc/pv/timer.h'],[('timer loop','src/misc/timer.cpp: run'),('wakeup flag','schedulePeriodic, waiting'),('shutdown','close')],
 'callback log with virtual time stamps',)

p('C25','Threads, locks and events keep their contracts under every schedule',
 'A started thread runs its body exactly once (at most once if it is joined or destroyed before the body has begun) and its object is not destroyed, and joining does not return, before the body ends, however the thread was configured (deferred start, function, functor, runnable). Lock objects hold the mutex exactly while they say they do, and an event wakes exactly one waiter per signal with no lost wake-up, an initially full one waking the first waiter.',
 ['schedules','histories'],'all interleavings within the preemption bound of 2-3 threads using thread, lock and event objects; every operation sequence on a lock object',
 'tests exercise one schedule; a lost wake-up or early return needs a precise interleaving.',
 ['src/misc/thread.cpp','src/misc/pv/thread.h','src/misc/event.cpp','src/misc/pv/event.h','src/misc/pv/lock.h'],[('auto-join','Thread::~Thread, Config'),('scoped lock','src/misc/pv/lock.h'),('event wrapper','src/misc/event.cpp')],
 'log of thread bodies, lock ownership')

p('C26','Instance counters and the reference monitor report the truth and always stop',
 'Registered counters are reported by name with their current value, snapshots subtract name by name, and instance counts return to their starting values once all objects are gone. Starting, stopping, querying and destroying the periodic monitor from any threads never deadlocks, never leaves a monitor thread behind, and leaves it running or stopped as the last completed call says.',
 ['schedules','histories'],'all interleavings within the preemption bound of 2 client threads and the monitor thread; all operation sequences on counters; object creation histories',
 'a stop racing with a start hangs only in one window; leak-freedom is over all histories.',
 ['src/misc/reftrack.cpp','src/misc/pv/reftrack.h'],[('monitor thread','src/misc/reftrack.cpp: RefMonitor'),('snapshot difference','RefSnapshot::operator-')],
 'snapshots; termination of all threads')

p('C27','Tracking pointers list every live owner, and only those',
 'The tracking shared pointer behaves as an ordinary shared pointer (ownership, counts, casts, weak references, shared_from_this) under any sequence of copies, swaps, resets, casts and destructions, and at every point the list of owners asked of any owning or weak pointer names exactly the live owning pointers to that object, and nobody for a null pointer. Threads which each use their own pointers to one object may copy, drop and swap them and ask for the list at the same time.',
 ['histories','schedules'],'every operation sequence up to the depth bound over three pointers and two objects, in parallel with the standard shared pointer; two or three threads, every schedule up to the preemption bound',
 'the owner list is only wrong after particular combinations of moves and swaps.',
 ['src/misc/debugPtr.cpp','src/misc/pv/debugPtr.h'],[('tracker','src/misc/debugPtr.cpp: track, swap, snap')],
 'use_count, get, show_referrers / spy_refs')

p('C28','Time stamps stay normalised and order correctly',
 'A time stamp always has nanoseconds in [0, 1e9) after construction, assignment, millisecond or calendar conversion and any sequence of additions and subtractions; addition, difference and ordering agree with exact arithmetic on the total nanoseconds (additions of fractions to within the rounding of a double), and millisecond and calendar conversions are inverse to each other.',
 ['inputs','histories'],'all combinations of boundary seconds, nanoseconds and increments, sequences of additions up to the depth bound',
 'carry, borrow and negative values are sampled at a few points only.',
 ['src/property/timeStamp.cpp','src/property/pv/timeStamp.h'],[('normalisation','src/property/timeStamp.cpp: normalize, operator+=, put')],
 'getters and comparison operators')

p('C29','Property helpers mirror the attached structure exactly',
 'The alarm, time stamp, control, display and enumeration helpers attach exactly to structures having the required fields with the required types, report truthfully whether they are attached, read and write exactly those fields, say whether a write changed anything, refuse to act when detached, and refuse without any change when a field to be written is immutable.',
 ['histories','inputs'],'every sequence up to the depth bound of attach, detach, get and set over complete, incomplete, wrongly typed and immutable structures',
 'tests attach once to a good structure.',
 ['src/property/pvAlarm.cpp','src/property/pvControl.cpp','src/property/pvDisplay.cpp','src/property/pvEnumerated.cpp','src/property/pvTimeStamp.cpp','src/property/alarm.cpp'],[('attach','src/property/pv*.cpp: attach, set')],
 'return values and field contents')

p('C30','Immutable values never change and every change is notified',
 'Once a field is marked immutable, every way of changing it or anything below it through that field (put, conversion, replace, resize, select, copy or decode into it) is refused or has no effect; the value selected by a union and the elements of structure and union arrays are values of their own with their own mark. Mutable fields stay changeable. A put to a mutable leaf notifies the handler registered on that field and nothing else, and the handler finds the new value in place.',
 ['histories','inputs'],'every mutating operation on every field kind, before and after marking any ancestor immutable; every registration order',
 'each kind of field implements its own check.',
 ['src/factory/PVField.cpp','src/factory/PVStructure.cpp','src/factory/PVUnion.cpp','src/factory/PVStructureArray.cpp','src/factory/PVUnionArray.cpp','src/factory/PVDataCreateFactory.cpp','src/pv/pvData.h'],[('immutable flag','src/factory/PVField.cpp: setImmutable'),('notification','PVField::postPut')],
 'value before/after, handler calls')

p('C32','Text conversions of arrays and structures',
 'Convert::fromString() and fromStringArray() make a scalar array exactly the listed values - one per comma-separated item, with or without brackets, whatever the array held before - and a structure exactly the given strings, one per leaf in field order from the given start; text that is no value of its field, too few strings or unsupported fields are refused, and a refused array stays as it was. toStringArray() writes exactly the selected elements at the selected place. Counts returned are those of what was converted.',
 ['inputs','configurations'],'every element type, item list, bracket form, prior length and offset',
 'no test converts more than plain whole lists.',
 ['src/factory/Convert.cpp','src/pv/convert.h','src/misc/typeCast.cpp'],[('text of arrays','src/factory/Convert.cpp: fromString/fromStringArray/toStringArray'),('text of structures','Convert::fromString(PVStructurePtr)')],
 'values afterwards, returned counts')

p('C31','Standard structures have exactly the requested properties',
 'For every value type and every combination of standard properties, the standard structure has the value first, then exactly the requested properties in the fixed order with their documented fields and IDs, in type description and in freshly created value alike; value alarms match the value type and are refused where they make no sense.',
 ['configurations','inputs'],'every value kind times every subset of the properties',
 'tests build a few combinations.',
 ['src/factory/StandardField.cpp','src/factory/StandardPVField.cpp'],[('property assembly','src/factory/StandardField.cpp: createProperties')],
 'resulting type')

p('C33','A new value is the default of exactly the type asked for',
 'Whichever way a value is created (from a type through the factory or the type itself, from a scalar code, from another value, or from a list of names and member values), its type is exactly the one asked for and it holds the default of that type: zero, false or empty scalars, empty arrays, unions without a selection, and structures of such members; it is mutable, has no parent and no name, and is numbered from zero. Values created from the same type are independent of each other and of the past. A structure made from names and values has those very values as its members, and illegal or repeated names are refused.',
 ['configurations','inputs'],'every leaf type and every type tree to a node bound, by every creation route; every short list of members',
 'there are many routes for each of the kinds of type and tests use few of them.',
 ['src/factory/PVDataCreateFactory.cpp','src/factory/FieldCreateFactory.cpp','src/factory/PVStructure.cpp','src/factory/PVUnion.cpp','src/pv/pvData.h'],[('creation','src/factory/PVDataCreateFactory.cpp: PVDataCreate'),('build()','src/factory/FieldCreateFactory.cpp')],
 'the new value')

p('C34','Threads with values of their own need no locks',
 'Threads which each work with values of their own - create, fill, copy, compare, send, receive, print, parse, convert, look up, map, build, attach helpers to them - may do so at the same time without any locking, although the values share type descriptions, frozen array data and the global factories: no operation has a data race with one on another value, and each gives exactly what it gives alone, whatever was done before or is done meanwhile.',
 ['schedules','histories'],'every pair and triple of 29 groups of operations, every schedule to a bound of preemptions; every sequence of two',
 'tests have one thread; whatever the library keeps behind the scenes (caches, scratch memory, statics) is only seen when two threads or a certain order of operations meet.',
 ['src/factory/FieldCreateFactory.cpp','src/factory/PVDataCreateFactory.cpp','src/factory/PVStructure.cpp','src/factory/Convert.cpp','src/factory/StandardField.cpp','src/factory/StandardPVField.cpp','src/factory/printer.cpp','src/misc/typeCast.cpp','src/misc/status.cpp','src/json/jprint.cpp','src/json/parseinto.cpp','src/json/parseany.cpp','src/copy/createRequest.cpp','src/copy/requestmapper.cpp','src/pvMisc/bitSetUtil.cpp','src/property/alarm.cpp'],[('shared singletons','getFieldCreate, getPVDataCreate, getConvert, getStandardField, getStandardPVField'),('frozen data','src/misc/pv/sharedVector.h'),('immutable types','src/factory/FieldCreateFactory.cpp')],
 'results of the operations; happens-before race detection on every memory access of the library')

def main():
    import os, sys
    D=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, D)
    from checks import CHECKS
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
    with open(D+'/properties.jsonl','w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
    checks, na = [], []
    for x in P:
        i = x['id']
        if i not in CHECKS:
            na.append(dict(property=i, reason='no check built yet')); continue
        c = CHECKS[i]
        sched = any(q['variant']=='sched' for q in c['parts'])
        seq = any(q['variant']!='sched' for q in c['parts'])
        t = []
        if seq: t.append('bounded exhaustive exploration of the real code against a reference model')
        if sched: t.append('stateless model checking of thread schedules with race detection')
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick'%i, thorough_cmd='python3 check.py %s --tier thorough'%i,
            technique='; '.join(t), level='model_checking',
            level_note='Every sequence of choices (operations, shapes, values, fragmentations'+(', thread switches within the preemption bound' if sched else '')+') within the stated bounds is executed on the library itself, built from the current tree'+('' if sched and not seq else ' under the address sanitizer')+'. '+c.get('note','')+' Nothing is claimed outside the bounds; trusts the reference model in the harness, the compiler and libCom.'))
    m = dict(version=1, setup_cmd='make -s -j8 -f mk/build.mk VARIANT=asan lib && make -s -j8 -f mk/build.mk VARIANT=sched lib',
        checks=checks, not_applicable=na)
    json.dump(m, open(D+'/MANIFEST.json','w'), indent=1)
if __name__=='__main__': main()
