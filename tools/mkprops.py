#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

MT='include/rtti/metatype.h'; MTC='src/metatype.cpp'; V='include/rtti/variant.h'; VI='include/rtti/detail/variant_impl.h'
VC='src/variant.cpp'; MD='include/rtti/metadefine.h'; MC='src/metaclass.cpp'; MCO='src/metacontainer.cpp'; MI='src/metaitem.cpp'
TR='include/rtti/misc_traits.h'; AI='include/rtti/detail/argument_impl.h'

p('C01','One type, one identity: ids, names and decay links agree everywhere',
  'Every C++ type has exactly one non-zero type id, the same from every translation unit, thread and order of first use, and two different types that the compiler names differently never share one. '
  'Looking a type up by its id or by its name gives back that same type (and no type for a name that was never registered or is empty, or for the zero id), and void is the type without an id. '
  'The decay id of a type is the id of that type with references, array extents at the top level and const/volatile at every level removed, and a type is "decayed" exactly when it is its own decay.',
  ['inputs','programs','schedules'],'for every pair of types, every order in which they are first used, and every way of asking',
  'The tests touch a few dozen ids in one fixed order in one program; identity is a property of all pairs of types and all registration orders.',
  [MT,MTC,'include/rtti/typename.h','include/rtti/tagged_id.h',TR],
  [('name-keyed type table under a shared mutex','CustomTypes, src/metatype.cpp'),('function-local static holder per type','metaTypeId<T>, include/rtti/metatype.h')],
  ['metaTypeId<T>()','MetaType(id)','MetaType(name)','MetaType::decayId'])
p('C02','Reported size, flags and predicates of a type match the C++ type',
  'For every type the reported size, pointer depth, flags and is-predicates (const, lvalue/rvalue reference, pointer, class, class pointer, void pointer, function pointer, array, ...) are those of the C++ type as the compiler sees it, with the trait flags describing the type underneath references, pointers and arrays and the pointer depth counted through arrays. '
  'Printing flags or a type names exactly the flags that are set, each by its own name, without reading outside the name table.',
  ['inputs','programs'],'for every type: fundamental, enum, union, class, pointer of any depth, reference, array, function and member pointer, cv-qualified at any level',
  'The tests never read a flag except through the few casts they make and never print one; the claim is over the whole type algebra.',
  [MT,MTC,TR],[('type_flags<T>','include/rtti/metatype.h'),('operator<<(ostream, TypeFlags)','src/metatype.cpp')],
  ['MetaType::typeFlags','MetaType::is*','MetaType::typeSize','operator<<'])
p('C03','Type compatibility follows C++ reference binding and const qualification',
  'One type is reported compatible with another of the same underlying type exactly when C++ would bind or qualify it without a temporary: lvalues never bind to rvalue references, rvalues never bind to non-const lvalue references, and const may be added at pointer levels but never dropped or added underneath a mutable level. '
  'Arrays are compatible with a pointer to their element and with arrays of the same element no longer than themselves, never with longer ones; an invalid type is compatible with nothing.',
  ['inputs'],'for every ordered pair of types built from pointers, arrays, references and const at any level',
  'The tests sample a handful of const/reference combinations through methods; the relation has thousands of pairs and each wrong one breaks const-correctness or memory safety.',
  [MTC,TR],[('MetaType::compatible','src/metatype.cpp'),('const_bitset / pointer_arity','include/rtti/misc_traits.h')],['MetaType::compatible'])
p('C04','Objects built and torn down through type metadata live exactly one life',
  'Constructing through a type handle yields suitably aligned storage holding exactly one object of that type (every element, for arrays), default-made or a copy or move of the given source as asked (a type that can be moved is not copied for a move), and destructing it ends each of those objects once and returns the storage. '
  'When the type cannot be constructed as asked, or its constructor throws, the caller gets the exception and neither an object nor storage is left behind.',
  ['inputs','histories'],'for every type (small, large, over-aligned, array, move-only, copy-only, throwing) and every interleaving of constructions and destructions',
  'No test calls construct or destruct at all.',
  [MT,MTC],[('type_function_table_impl<T>','include/rtti/metatype.h'),('MetaType::construct / destruct','src/metatype.cpp')],['MetaType::construct','MetaType::destruct'])
p('C05','Every object a variant ever holds is destroyed exactly once',
  'Over any history of creating, copying, moving, assigning, swapping, clearing, converting and destroying variants, each object the library creates inside a variant (or in a temporary on the way) is destroyed exactly once, is never used before its construction or after its destruction, and is never overwritten while alive. '
  'When the last variant is gone, no contained object and no storage remains. '
  'This holds equally for values stored inside the variant, values stored on the heap, arrays, and types that are move-only, copy-only or over-aligned; references held by a variant are never destroyed by it.',
  ['histories','inputs'],'for every finite history of variant operations over every kind of contained type',
  'The tests count constructor calls on one 16-byte type in fixed scripts (and those scripts even encode a leak); lifetimes depend on the whole history and on the storage class of each type.',
  [V,VI,VC,MT],[('per-type function table (copy, move, destroy)','include/rtti/detail/variant_impl.h'),('variant::swap / clear','src/variant.cpp')],['constructor/destructor events of contained objects','global allocator'],
  [('variant::storage/manager','16-byte inline buffer or heap pointer plus the table that knows how to treat it','include/rtti/variant.h')])
p('C06','A variant is a value: copies are independent, moves transfer, refs alias',
  'A variant always reports the type and value last put into it: copying yields an equal variant independent of the original, moving or swapping transfers the value intact (a moved-from variant is empty) without copying it where its type can be moved, putting in an rvalue moves it likewise, clearing empties it, and self-assignment and self-swap change nothing. '
  'Changing the contained value through one variant never changes another, except that variants made from references observe and modify the referenced object itself, and copying such a variant copies the reference.',
  ['histories','inputs'],'for every history of operations on any number of variants and any mix of contained types',
  'Tests run short fixed scripts with one live variant at a time; aliasing and value bugs need particular pairs of storage classes and operation orders.',
  [V,VI,VC],[('copy/move/swap through the function table','src/variant.cpp'),('reference_wrapper specialisation','include/rtti/detail/variant_impl.h')],['variant API'])
p('C07','Failures inside variant operations leave nothing broken and nothing leaked',
  'If a contained type\'s constructor, comparison or converter throws, or an allocation fails, at any point inside an operation on variants, method calls or type handles, the exception reaches the caller (a throwing converter as a failed conversion), the process is not terminated, every variant involved still holds the value it had before, and no object or storage is leaked. '
  'Operations that are declared not to throw (moving, swapping, clearing and destroying variants) complete for every contained type.',
  ['fault_sequences','inputs'],'for every throw point and every allocation inside every operation, for every storage class of contained type',
  'No test makes a constructor throw or an allocation fail.',
  [V,VI,VC,MT,AI],[('copy-and-swap assignment','src/variant.cpp'),('allocate-then-construct','include/rtti/detail/variant_impl.h'),('FINALLY scope guards','include/rtti/variant.h')],['exceptions at the API','constructor/destructor events','global allocator'])
p('C08','Typed access never bypasses the real type or constness of the value',
  'Asking a variant whether it is, or for a reference, pointer or copy of, a type succeeds exactly when the held value is of that type up to what C++ reference binding allows (including const held values, const variants and referenced const objects); otherwise is() is false, data() is null and ref/cref/rref/to throw the documented cast or conversion error, as does any access to an empty variant. '
  'A successful access designates the held object itself (the referenced object for reference variants, the first element or the whole array for arrays, the pointer value for pointers), never a copy of it, and never yields mutable access to a const object.',
  ['inputs'],'for every held type and way of holding it, every requested type, every accessor, const and non-const variants',
  'The tests try about two dozen combinations; const-correctness is a claim about the full matrix.',
  [V,VI,MTC],[('metafunc_is / metafunc_cast / metafunc_to','include/rtti/variant.h'),('MetaType::compatible','src/metatype.cpp')],['variant::is/ref/cref/rref/data/to'])
p('C09','Variant equality is an equivalence on type and value, and hashing respects it',
  'Two variants are equal exactly when both are empty, or both hold (directly or by reference) the same decayed type and the held values compare equal; this is reflexive, symmetric and transitive and does not depend on which side is the reference, const, or on the left, and != is its negation. '
  'Arrays are equal only to arrays of the same length with equal elements; comparing values of a type without equality throws instead of answering. '
  'Equal variants have equal hashes, and eq() additionally accepts values that a registered converter turns into an equal one.',
  ['inputs'],'for every pair and triple of held values, types and ways of holding them',
  'The tests compare a few literals; equality laws quantify over all pairs, and hash is never tested.',
  [V,VI,VC],[('variant::operator==','src/variant.cpp'),('variant::eq, std::hash<variant>','include/rtti/detail/variant_impl.h')],['operator==','operator!=','eq/neq','std::hash<variant>'])
p('C10','Conversions run exactly the converter registered for the two types',
  'At any time a pair of (decayed) source and target types has at most one converter: the first registered wins, later registrations are refused until it is unregistered, after which a newly registered one is used and has/canConvert answer accordingly. '
  'Converting a value runs that converter exactly once on the held value and yields its result; if it throws or reports failure the conversion fails with the documented bad_variant_convert error (or false), the source is unchanged, and whatever the converter produced is released. '
  'With no converter and no direct access the conversion fails, and nothing is ever converted through a converter for another pair.',
  ['histories','inputs'],'for every history of registrations, removals and conversions over every pair of types, every kind of converter',
  'The tests register converters once at start-up and never remove, fail or replace one (member-function converters are not even instantiated).',
  [MT,MTC,V],[('converter table keyed by decayed ids','MetaTypeFunctionList, src/metatype.cpp'),('ConvertFunctor/Ok/Method/MethodOk','include/rtti/metatype.h')],['registerConverter','unregisterConverter','hasConverter','variant::to/convert/tryConvert/canConvert'])
p('C11','Polymorphic casts agree with the C++ hierarchy and with dynamic_cast',
  'For registered classes with class info, casting a pointer or reference through meta_cast, or asking a variant holding an object, reference or pointer for a base type, succeeds exactly when the object\'s dynamic type is, or unambiguously inherits from, the target, and then yields the very address dynamic_cast would (for an ambiguous base: a failure or one of its real subobjects). '
  'All other casts, including null pointers and unregistered classes, yield null, false or the documented exception, and never a wrong address or a crash.',
  ['programs','inputs'],'for every class hierarchy (single, multiple, virtual, deep, with any layout), every pair of classes and every static type of the starting pointer',
  'Tests check three small hand-written hierarchies; pointer adjustment bugs depend on layout and on the path through the hierarchy.',
  [MC,'include/rtti/metaclass.h',V,MD],[('MetaClass::cast along base casters','src/metaclass.cpp'),('metacast_to_base','include/rtti/metadefine.h'),('DECLARE_CLASSINFO','include/rtti/metaclass.h')],['meta_cast','variant::is/ref/data/to'])
p('C12','Registered inheritance is one consistent graph seen from both ends',
  'A class lists each declared direct base once, in the order of declaration, and every class listed as a base lists this class once among its derived classes and nothing else does. '
  'inheritedFrom is exactly the reflexive-transitive closure of the declared bases; declaring a base that is not registered is refused with an error and leaves both sides unchanged.',
  ['programs','histories'],'for every hierarchy and every order in which classes and bases are declared, eagerly or lazily, once or repeatedly',
  'Tests look at the results of casts only; they never read base or derived lists or declare bases repeatedly or in another order.',
  [MC,'src/private/metaclass_p.h'],[('BaseClassList / DerivedClassList','src/private/metaclass_p.h'),('MetaClass::inheritedFrom','src/metaclass.cpp')],['baseClassCount/baseClass','derivedClassCount/derivedClass','inheritedFrom'])
p('C13','Invoking a method calls exactly that function with exactly those arguments',
  'Invoking a registered function or method calls that function once, on the given instance (converted to the class that declares it), with every argument in its position bound as C++ would bind it: references refer to the caller\'s object, values are copies, rvalues may be moved from, and registered conversions fill in otherwise. '
  'The result is returned by value or, for functions returning a reference, as a reference to the same object; void yields an empty variant and an exception thrown by the function reaches the caller. '
  'Parameters of type variant, and by-value parameters of move-only type, may refuse an argument with the documented error. '
  'A wrong number of arguments, an argument that cannot be bound, a wrong instance type, or a non-const use of a const instance or object raises the documented error and the function is not called.',
  ['inputs','programs'],'for every signature of up to ten parameters, every way of passing each argument and every way of designating the instance',
  'Tests call about ten signatures with up to two arguments.',
  [V,AI,'include/rtti/detail/metamethod_impl.h',MD],[('pack_arguments / method_invoker','include/rtti/metadefine.h'),('argument::value','include/rtti/detail/argument_impl.h')],['MetaMethod::invoke','variant::invoke'])
p('C14','Constructors found by signature build the object their arguments describe',
  'A class whose objects can be copied or moved offers its default, copy and move constructor exactly when the C++ class has them, and every further constructor under the signature of its parameters (or the given name). '
  'Invoking a constructor makes exactly one object, from exactly the given arguments in order, and returns it in a variant of that class; copying leaves the source intact and moving is only accepted from an rvalue. '
  'Declaring a constructor with a single by-value or const reference parameter also makes that conversion available, and wrong arguments raise the documented error without creating an object.',
  ['inputs','programs'],'for every class, set of constructors and argument list',
  'Tests construct three classes with one constructor signature each.',
  [MD,'src/metaconstructor.cpp',MCO],[('ConstructorInvoker','include/rtti/metadefine.h'),('define_*_constructor','include/rtti/metadefine.h')],['getConstructor/defaultConstructor/copyConstructor/moveConstructor','MetaConstructor::invoke'])
p('C15','Properties read and write exactly the variable or accessors they name',
  'Getting a property yields the current value of exactly the variable, member or getter it was registered with, for the given instance, and setting it followed by getting yields the value set (converted where a converter is registered) and changes nothing else. '
  'Read-only properties, const instances held by value or const reference, unknown names, wrong instance types, wrong value types and static/field misuse raise the documented error and change nothing.',
  ['inputs','histories'],'for every kind of property (static, member, static and member accessors), instance and sequence of gets and sets',
  'Tests use two static properties and one accessor pair.',
  [V,MD,VI],[('property_invoker / PropertyInvokerEx','include/rtti/metadefine.h'),('MetaProperty::get_impl/set_impl','include/rtti/variant.h')],['MetaProperty::get/set','variant::get_property/set_property'])
p('C16','Every definition is found by name, index and iteration, and only where defined',
  'Each namespace or class lists the namespaces, classes, methods, constructors, properties and enums defined in it, once each, in order of definition, under counts, indices, iteration and names that all agree, with the qualified name being the owner path; redefining an existing name returns to the existing item and changes no other. '
  'Methods are found by full signature exactly or by plain name as the first such overload; a class sees its own methods and properties first and otherwise those of its bases in declaration order, and nothing else. '
  'Registering one type as two classes, or two types under one name, is refused with an error; a definition that fails, for lack of memory too, leaves everything found before as it was.',
  ['histories','programs'],'for every sequence of definitions over nested scopes, names, overloads and hierarchies',
  'Tests define one static tree and look up names known to be there.',
  [MCO,MC,'src/metamethod.cpp','src/metaproperty.cpp','src/metanamespace.cpp',MI,MD],[('MetaItemList: ordered items plus name map','src/metacontainer.cpp'),('findMethod','src/metacontainer.cpp'),('INVOKE_PROTECTED addItem + create','src/meta*.cpp')],['getX(name/index)','xCount','for_each_*','qualifiedName'])
p('C17','Attributes and enum elements behave as ordered last-write-wins maps',
  'Attributes of any item and elements of any enum keep the order of first definition, hold the value last set for each name, and are reported identically by count, index, name and iteration; unknown or empty names and out-of-range indices give the empty value. '
  'References handed out for one entry stay valid and current while other entries are added.',
  ['histories'],'for every sequence of definitions and lookups',
  'Tests read six attributes and four elements written once.',
  [MI,'src/private/metaitem_p.h','src/metaenum.cpp'],[('NamedVariantList','src/private/metaitem_p.h')],['attribute*/for_each_attribute','element*/for_each_element'])
p('C18','Lazy definitions run exactly once, before anyone sees the contents',
  'A deferred definition of a class or namespace is not run before its contents (or the bases, derived classes or constructors a class has) are first needed (or forced), then runs exactly once, and every observer on every thread that looks at the contents sees them complete, never partially defined. '
  'Forcing recursively runs the pending definitions of everything below; a second deferred definition while one is pending or running is refused; lookups made by the definition itself on its own container do not deadlock or run it again, and a definition that throws passes the exception to the observer that triggered it.',
  ['schedules','histories'],'for every set of lazily defined containers, every first observer and every interleaving of concurrent observers',
  'Tests trigger lazy definitions from one thread; a race between two first observers is never exercised.',
  [MCO,'src/private/metacontainer_p.h',MD],[('checkDeferredDefine','src/metacontainer.cpp'),('setDeferredDefine','src/metacontainer.cpp')],['any lookup on a lazily defined container','forceDeferredDefine'])
p('C19','Concurrent definition and lookup is race-free and loses nothing',
  'Any number of threads may define and look up namespaces, classes, bases, methods, properties, enums and attributes at the same time without data races, crashes or deadlocks, and every definition that completed is visible to every later lookup. '
  'Each lookup sees an item completely or not at all (references handed out for an attribute stay current, so replacing that very attribute while they are read is left to the caller), indices and handed-out items never change once seen, and of several threads defining the same name exactly one item results, which all of them get.',
  ['schedules'],'for every interleaving of defining and observing threads',
  'All tests are single-threaded.',
  [MCO,MC,MI,'src/private/metacontainer_p.h','src/private/metaclass_p.h','src/private/metaitem_p.h'],[('shared_mutex in each list','src/private/*_p.h'),('atomic class pointer per type','src/private/metatype_p.h')],['meta_define API','lookup API'])
p('C20','Type and converter registries stay consistent under concurrent use',
  'Threads that first use the same or different types at the same time all obtain the same single id per type, and lookups by name running alongside find either nothing or that id. '
  'Concurrent registration of converters for one pair lets exactly one win; concurrent queries, conversions and removals observe either a whole converter or none; none of this races, crashes or deadlocks.',
  ['schedules'],'for every interleaving of threads registering, querying, converting and unregistering',
  'All tests are single-threaded.',
  [MTC,MT],[('shared_mutex around the type table','CustomTypes'),('shared_mutex around the converter table','MetaTypeFunctionList')],['metaTypeId','MetaType(name)','registerConverter','variant::to'])
p('C21','Shared metadata and shared values can be read from many threads at once',
  'Once defined, namespaces, classes, methods, constructors, properties, enums, attributes and qualified names, and constant variants, can be used from any number of threads at once: lookups, invocations on distinct objects, constructions, property reads, casts, comparisons, conversions and copies of a shared constant variant never race, and each gives the result it gives alone.',
  ['schedules'],'for every interleaving of threads that only read shared metadata and shared constant values',
  'All tests are single-threaded; lazily cached state behind const functions only shows under concurrency.',
  [MI,MCO,MC,V,VI],[('const member functions over shared_mutex-guarded lists','src/*.cpp'),('cached qualified name','src/metaitem.cpp')],['all const API'])
p('C22','Misuse is answered with the documented error, never undefined behaviour',
  'Any sequence of public API calls with wrong names, types, counts, indices, null or empty arguments, empty variants, null pointers, default-constructed handles, incomplete or mismatched instances is answered by the documented value (null, false, zero, empty) or by an exception derived from the library\'s runtime_error, and leaves metadata and variants usable and unchanged. '
  'No such call reads or writes invalid memory or has other undefined behaviour.',
  ['inputs','histories'],'for every call of the public API with arbitrary (wrong) arguments in any order',
  'Tests contain about thirty negative checks, each on a single hand-picked input.',
  [V,VI,MC,MCO,MTC,MI],[('metaerror hierarchy','include/rtti/metaerror.h'),('empty-variant function table','include/rtti/detail/variant_impl.h')],['all public API'])
p('C23','Registration and use work at any point of static start-up and shutdown',
  'Types, converters, classes and values may be registered and used from static initialisers in any order across translation units, and variants with static or thread storage may be used and destroyed at any point of program exit, after or before the library\'s own registries, without crashes or undefined behaviour; metadata stays usable at exit by every object made after it was registered. '
  'Everything registered during start-up is completely visible in main, whether the library is used as static or shared library.',
  ['configurations','schedules'],'for every order of static initialisation and destruction across translation units, static and shared builds',
  'The test program has a single link order and only looks at data after main has started.',
  [MTC,'src/metanamespace.cpp',MD,VC],[('construct-on-first-use registries with Destroyed flags','src/metatype.cpp'),('RTTI_REGISTER','include/rtti/metadefine.h')],['process exit status and sanitizer reports','lookups in main'])
p('C24','Modules loaded into one program share one type system',
  'When the library is shared by an executable and several shared modules, all of them obtain the same id for the same type, exchange variants holding it, see each other\'s classes, methods and converters, and cast each other\'s objects. '
  'A module that defined no classes, methods or properties may be unloaded once its values are gone: converters it registered are gone, those of others remain, types keep their ids and names, and continuing to use the rest of the program is safe.',
  ['configurations','histories'],'for every set of modules, order of loading, and split of types, values and registrations between them',
  'The tests are one executable.',
  [MTC,MT,'src/CMakeLists.txt'],[('type table in the shared library keyed by name','src/metatype.cpp'),('converter destructor unregisters','include/rtti/metatype.h')],['dlopen/dlclose of generated modules'])

p('C25','Lists, callables and types are described as C++ has them; guards run once',
  'For every type list, each list operation (size, first, last, get, index, exists, concatenation, push and pop, remove, remove all, remove duplicates keeping the last, equality regardless of order, tuple, map, filter, left and right fold, index sequence) gives exactly the list or value its name says, elements in order and compared as exact types. '
  'For every function, member function, functor or std::function, function_traits reports the class, const, volatile, reference and noexcept qualification, result, arguments and signatures as declared, make_function gives a function that calls it with the same arguments and result, and the detection macros say whether a class has such a member or can be called so. '
  'Type transformations (levels of pointers, array lengths, removal of const and volatile, base type, template arguments) follow the structure of the type. '
  'The action of a scope guard runs exactly once, when the scope of its last owner is left in whatever way, and never when dismissed; tagged ids, joined strings, bit masks and signatures keep exactly the values they are given.',
  ['inputs','programs'],'for every type list, callable, class and type, and every way of leaving a scope',
  'The tests use these tools only as far as the library itself needs them, on a handful of types; the claims are over all lists and signatures.',
  ['include/rtti/typelist.h','include/rtti/function_traits.h','include/rtti/sfinae.h',TR,'include/rtti/finally.h','include/rtti/tagged_id.h','include/rtti/signature.h'],
  [('recursive templates over type_list','include/rtti/typelist.h'),('one specialisation per qualification','function_traits_helper, include/rtti/function_traits.h'),('dismissable scope guard','scope_guard, include/rtti/finally.h')],
  ['mpl::typelist_*','mpl::function_traits','mpl::make_function','HAS_METHOD / CAN_CALL_METHOD','FINALLY'])

import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
