#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
D='include/boost/poly_collection/detail/'
I='include/boost/poly_collection/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p('C01','Every view of a segment agrees with its contents, also after exceptions',
 'After any sequence of operations, including operations that leave with an exception thrown by an element constructor, an element assignment or the allocator, the reported sizes, the typed traversal, the type-erased traversal and the whole-collection traversal of a segment all describe the same elements. No traversal skips a stored element, runs past the end or reaches storage that has been released.',
 ['histories','fault_sequences'],'every history of modifying operations x every point at which a user operation or an allocation can throw, for all segment sizes and capacities',
 'Tests use a handful of small sizes and hardly any throwing element; the capacity-exhausted and throw-in-the-middle paths are not combined.',
 [D+'segment.hpp',D+'split_segment.hpp',D+'packed_segment.hpp',D+'stride_iterator.hpp',D+'iterator_impl.hpp'],
 [('cached end refreshed by every mutator',D+'segment.hpp filter()/set_sentinel()'),('index kept at one entry per element plus one',D+'split_segment.hpp build_index/push_index_entry/pop_index_entry')],
 [('snt','cached end of the type-erased range',D+'segment.hpp'),('i','type-erased entries referring to the stored elements',D+'split_segment.hpp')],
 ['size(T)','begin(T)/end(T)','begin()/end()'])
p('C02','Insertion and erasure have exactly the positional effect asked for',
 'An insertion adds exactly the given elements, in the given order, at the designated position of the segment for their type, or at the end of that segment when no position in it is given; an erasure removes exactly the designated elements; all other elements stay, in their relative order. The returned iterator designates the first inserted element, or the element following the erased ones.',
 ['inputs','histories'],'all segment sizes, capacities (with and without reallocation), positions and counts; all insertion and erasure overloads of the three collections',
 'Tests check a few concrete sizes and positions, seldom at the moment storage is reallocated.',
 [D+'poly_collection.hpp',D+'segment.hpp',D+'split_segment.hpp',D+'packed_segment.hpp'],
 [('position re-derived after reallocation',D+'split_segment.hpp prereserve()'),('range_from()',D+'packed_segment.hpp, '+D+'split_segment.hpp'),('hint compared with the segment of the type',D+'poly_collection.hpp emplace_hint/insert')],
 (),['insert','emplace','emplace_hint','emplace_pos','erase'])
p('C03','Inserted values may be elements of the same collection',
 'Inserting or emplacing from a reference to an element already in the collection produces the value that element had before the call, whether or not the insertion has to enlarge the storage. The storage holding the argument is never released or overwritten before the new element has been constructed from it.',
 ['inputs','histories'],'all sizes and capacities, all single-element insertion overloads, all three collections',
 'Tests never insert an element of a collection into itself at the moment its storage is full.',
 [D+'split_segment.hpp',D+'packed_segment.hpp',D+'poly_collection.hpp'],
 [('construction precedes release of the old storage',D+'split_segment.hpp nv_push_back/nv_insert/nv_emplace'),('std::vector aliasing guarantees',D+'packed_segment.hpp')],
 (),['insert(x)','insert(hint,x)','emplace'])
p('C04','Spare capacity keeps iterators and references valid',
 'While an insertion does not make a segment outgrow its reported capacity, the segment storage is not moved and iterators and references to elements before the insertion point stay valid and keep designating the same elements. Reserving n leaves a capacity of at least n and no operation changes elements, order or iterators of a segment it does not act on.',
 ['inputs','histories'],'all sizes, capacities and reservation requests, and all operations of the three collections',
 'Tests do not compare addresses before and after operations across capacities.',
 [D+'split_segment.hpp',D+'packed_segment.hpp',D+'poly_collection.hpp'],
 [('index and store reserved together',D+'split_segment.hpp nv_reserve/expand/prereserve')],
 (),['reserve','capacity','insert'])
p('C05','Operations on a type act on that type\'s segment of that very collection',
 'Whatever copies, moves, swaps, assignments, registrations and failures preceded, an operation naming a type acts on the one segment of that type belonging to the collection it is called on. It never reaches a segment of another type, of another collection or one that no longer exists.',
 ['histories','fault_sequences'],'all histories of collection-level copy/move/swap/assignment/registration/lookup, with equal and unequal allocators and with exceptions at every allocation',
 'Stale lookups need a particular sequence (look up, transfer, look up again through the other object) that tests do not perform for all allocator configurations.',
 [D+'type_info_map.hpp',D+'poly_collection.hpp'],
 [('lookup cache rebuilt or moved along with the map',D+'type_info_map.hpp build_cache/rebuild_cache'),('map and cache cleared together on failure',D+'type_info_map.hpp operator=')],
 [('cache','address of type_info -> position in map',D+'type_info_map.hpp')],['is_registered','size(T)','insert'])
p('C06','Types are identified by value, not by the address of their descriptor',
 'Two type descriptors that compare equal denote the same segment even when they are distinct objects, as happens across dynamic modules; lookup, registration, restitution and segment queries give the same answer for both. No decision depends on the address of a descriptor alone, except to shortcut to the answer that comparison by value gives.',
 ['inputs','configurations'],'all pairs of equal, distinct descriptors presented to any operation taking or comparing a type',
 'All tests live in one module, where equal descriptors are the same object.',
 [D+'type_info_map.hpp',D+'poly_collection.hpp',D+'type_restitution.hpp',I+'algorithm.hpp'],
 [('hash_code and operator== on the pointees',D+'type_info_map.hpp type_info_ptr_hash/type_info_ptr_equal_to')],
 (),['is_registered(info)','begin(info)','algorithms with type restitution'])
p('C07','Segments are created only by documented operations; others reject the type',
 'An operation naming a type that is not registered either creates its segment, where its documentation says so, or throws the unregistered-type exception carrying that type and changes nothing. Queries never create segments, registering an already registered type keeps its elements, and inserting an element whose dynamic type is neither its static type nor registered is rejected without storing anything.',
 ['inputs','histories'],'every operation x registered/unregistered/empty segment x static type equal to or different from the dynamic type',
 'Tests sample some operations on one unregistered type.',
 [D+'poly_collection.hpp',I+'exception.hpp',D+'type_info_map.hpp'],
 [('get_map_iterator_for overloads',D+'poly_collection.hpp')],
 (),['all members taking a type'])
p('C08','Whole-collection operations reach every segment and nothing else',
 'Total size, emptiness, clearing, reservation, shrinking and segment traversal account for every segment of the collection, empty or not, exactly once. Their per-type counterparts affect and report the segment of that type only.',
 ['inputs','histories'],'any number and order of segments, any distribution of elements and empty segments',
 'Tests use fixed sets of types with elements in most segments.',
 [D+'poly_collection.hpp'],[('loops over the segment map',D+'poly_collection.hpp size/empty/clear/reserve/shrink_to_fit')],(),['size','empty','clear','reserve','shrink_to_fit','segment_traversal'])
p('C09','Global iteration visits every element once, across segment borders',
 'Iterating from begin to end visits every element of every segment exactly once, skipping empty segments wherever they are, and an iterator obtained by incrementing past the last element of a segment equals the one designating the first element of the next non-empty segment or the end. Local positions convert to and from global and typed positions without changing the element they designate.',
 ['inputs','histories'],'any number of segments, any sizes including empty ones at the front, in between and at the end',
 'Tests have few layouts of empty and non-empty segments, and hash order fixes their sequence.',
 [D+'iterator_impl.hpp',D+'iterator_traits.hpp',D+'stride_iterator.hpp',D+'any_iterator.hpp',D+'callable_wrapper_iterator.hpp'],
 [('next_segment_position',D+'iterator_impl.hpp')],(),['begin','end','operator++','operator=='])
p('C10','Lvalues are copied, rvalues moved, arguments forwarded exactly',
 'Inserting an lvalue or a const element never modifies or moves from it, inserting an rvalue moves from it exactly once, and emplacement arguments reach the element constructor with their types and value categories unchanged. Range insertion from lvalue-yielding iterators leaves the source range intact.',
 ['inputs','programs'],'all value categories and constness of arguments, for all insertion overloads and collections',
 'Tests use elements for which copy and move are indistinguishable in most overloads.',
 [D+'segment.hpp',D+'poly_collection.hpp',D+'value_holder.hpp',D+'packed_segment.hpp',D+'split_segment.hpp',D+'allocator_adaptor.hpp'],
 [('std::forward chains; enable_if on lvalue-ness',D+'segment.hpp push_back/insert')],(),['insert','emplace'])
p('C11','Copy, move, assignment and swap transfer exactly the elements',
 'A copy holds equal elements in the same order in separate segments and leaves the source unchanged; a move or move assignment hands over all elements; swap exchanges the contents; self-assignment changes nothing. Afterwards both collections are valid and usable, and this also holds with unequal allocators and when an exception interrupts the operation.',
 ['inputs','histories','fault_sequences'],'any contents, equal or unequal stateful allocators, all propagation traits, exception at any allocation or element copy',
 'Tests cover a few allocator combinations, small contents and no failures.',
 [D+'poly_collection.hpp',D+'type_info_map.hpp',D+'segment.hpp',D+'packed_segment.hpp',D+'split_segment.hpp'],
 [('copy()/copy(al)/move(al)/empty_copy(al)',D+'packed_segment.hpp, '+D+'split_segment.hpp')],(),['constructors','operator=','swap'])
p('C12','Equality compares contents by type, ignoring empty segments and order of types',
 'Two collections compare equal exactly when for every type either both have equal sequences of elements or neither has any element of it, whichever types happen to be registered and in whatever order. Inequality is always the negation of equality.',
 ['inputs'],'all pairs of collections over any set of types, registered in any order',
 'Tests compare few pairs; asymmetric registrations with equal totals are not tried.',
 [D+'poly_collection.hpp',D+'segment.hpp'],[('operator==',D+'poly_collection.hpp')],(),['operator==','operator!='])
p('C13','Elements live and die only through the user\'s allocator',
 'All element storage and segment objects are obtained from and returned to the allocator (or a rebound copy) of the collection owning them, and every element is constructed and destroyed through that allocator\'s construct and destroy facilities, including uses-allocator construction. Allocator propagation on copy, move and swap follows the allocator\'s traits.',
 ['programs','configurations'],'all allocators (stateful, propagating or not, with custom construct/destroy) and all operations',
 'Tests use allocators whose construct/destroy are the default ones, and do not pair every allocation with its deallocation.',
 [D+'allocator_adaptor.hpp',D+'value_holder.hpp',D+'packed_segment.hpp',D+'split_segment.hpp',D+'type_info_map.hpp'],
 [('allocator_adaptor::construct/destroy',D+'allocator_adaptor.hpp'),('value_holder friend construct/destroy',D+'value_holder.hpp'),('new_/delete_',D+'packed_segment.hpp')],(),['allocator calls'])
p('C14','Failures leak nothing and destroy nothing twice',
 'If creating a segment, constructing an element or copying a collection fails with an exception, everything allocated or constructed by the failed operation is released exactly once and nothing else is. Destroying a collection releases every segment through the function that matches its type.',
 ['fault_sequences'],'every allocation and construction as failing point',
 'Leaks on failing paths are invisible to tests that inject no failures.',
 [D+'packed_segment.hpp',D+'split_segment.hpp',D+'segment.hpp',D+'segment_backend.hpp',D+'value_holder.hpp'],
 [('try/catch around placement new',D+'packed_segment.hpp, '+D+'split_segment.hpp new_'),('deleter stored with the segment',D+'segment_backend.hpp')],(),['destructor','failing operations'])
p('C15','Const operations write nothing, so concurrent readers are safe',
 'No operation on a const collection, const iterator or segment view writes to any state reachable from the collection, caches included, nor to any static or global variable. Any number of threads may therefore call const operations concurrently.',
 ['schedules','programs'],'all const member functions and queries, all interleavings of concurrent callers',
 'Tests are single threaded; a lazily written cache is invisible to them.',
 [D+'type_info_map.hpp',D+'poly_collection.hpp',D+'segment.hpp',D+'packed_segment.hpp',D+'split_segment.hpp'],
 [('const find does not fill the cache',D+'type_info_map.hpp'),('no mutable members',D)],(),['const members'])
p('C16','Const access never yields mutable access',
 'From a const collection, a const iterator or a const segment view, no member yields a non-const reference, pointer, iterator or view, and no conversion turns a const iterator into a mutable one. Conversions from mutable to const versions exist for all iterators and views.',
 ['programs'],'all client programs using the public interface',
 'Tests check programs that compile, not those that must not.',
 [D+'iterator_impl.hpp',D+'poly_collection.hpp',D+'stride_iterator.hpp',D+'any_iterator.hpp',D+'callable_wrapper_iterator.hpp'],
 [('overload sets and enable_if conditions',D+'iterator_impl.hpp')],(),['types of all const members'])
p('C17','Functions declared not to throw cannot throw',
 'No operation declared noexcept can reach an operation that may throw, such as allocation, a user element operation, a throwing lookup or a throw expression; operations whose noexceptness depends on the element type are declared so only when the element operations used are. Clearing, sizing, dereferencing and iteration therefore never terminate the program.',
 ['programs','fault_sequences'],'all noexcept functions, all element and allocator types',
 'A wrongly promised noexcept only shows when something throws inside it.',
 [D],[('noexcept specifications',D)],(),['noexcept members'])
p('C18','Each collection accepts exactly the documented element types',
 'A type is acceptable when it implements the collection\'s interface (derives from the base, models the concept, or is callable with the signature), is move constructible, and is move assignable or nothrow move constructible. Emplacement, registration and typed access compile exactly for acceptable types, and insertion only for types implementing the interface; everything else is rejected by overload resolution. Acceptable types that cannot be copied or compared are stored like the others and fail, with the documented exception and no other effect, only when actually copied or compared.',
 ['programs'],'all element types',
 'Tests instantiate accepted types only.',
 [D+'base_model.hpp',D+'any_model.hpp',D+'function_model.hpp',D+'is_acceptable.hpp',D+'value_holder.hpp'],
 [('is_implementation/is_acceptable',D+'is_acceptable.hpp'),('throwing fallbacks',D+'value_holder.hpp')],(),['overload resolution','not_copy_constructible','not_equality_comparable'])
p('C19','Type restitution hands over exactly the elements of the listed types',
 'An algorithm given a list of types passes an element as a reference to one of those types exactly when that is the element\'s concrete type, and passes it as the collection\'s value type otherwise. This holds for every element argument a user function receives, including elements remembered from an earlier segment.',
 ['programs','inputs'],'all algorithms, all type lists, all sequences of segments',
 'Tests use polymorphic functions giving the same result with and without restitution.',
 [D+'type_restitution.hpp',I+'algorithm.hpp',D+'functional.hpp',D+'iterator_traits.hpp'],
 [('typeid comparison before the cast',D+'type_restitution.hpp')],(),['callbacks of algorithms'])
p('C20','Algorithms process exactly the given range, in order, and compose results',
 'Each algorithm of the library reads exactly the elements its standard counterpart would read of [first,last), segment after segment in order, stopping at the same element. Partial results of segments are combined so that positions, counts and early exits are those of the whole range, for any count type and wherever the allocator places the segments.',
 ['inputs','programs'],'all ranges, including empty ones, ranges within one segment, ending at a segment border and spanning empty segments',
 'Tests compare with std algorithms on a few fixed collections and ranges.',
 [I+'algorithm.hpp',D+'segment_split.hpp'],[('for_each_segment and segment_split',D+'segment_split.hpp')],(),['algorithm results'])
p('C21','User types with hostile operators or minimal interfaces work everywhere',
 'Operations compile and behave for every element, callable, size and iterator type meeting the documented requirements, however minimal: types overloading unary &, comma or comparison templates, types with greedy constructors, final, move-only and non-assignable types, and any integral count type. No overloaded operator of a user type is invoked beyond what the requirements allow.',
 ['programs'],'all client types meeting the documented requirements',
 'Tests use friendly types.',
 [D+'callable_wrapper.hpp',D+'value_holder.hpp',I+'algorithm.hpp',D+'split_segment.hpp',D+'packed_segment.hpp'],
 [('addressof, void casts around comma',I+'algorithm.hpp')],(),['instantiation'])
p('C22','Algorithm results equal those of the standard algorithms',
 'For every collection content and user function, each algorithm returns the same value as the standard algorithm of the same name applied to the flattened range.',
 ['inputs'],'all contents, all user functions and predicates',
 'Tests sample contents.',
 [I+'algorithm.hpp'],[('segment-wise reimplementation',I+'algorithm.hpp')],(),['algorithm results'])
p('C23','Traversal is segment-contiguous and insertion is amortised constant time',
 'Elements of one concrete type are stored contiguously and appending takes amortised constant time however many elements there are.',
 ['inputs'],'all sizes','Tests measure nothing.',
 [D+'packed_segment.hpp',D+'split_segment.hpp'],[('std::vector stores, geometric growth',D+'split_segment.hpp expand()')],(),['running time'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:f.write(json.dumps(x)+'\n')
