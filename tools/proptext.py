PROP=[]
NA=[]
def P(id,title,statement,over,q,why,files,mech,note,**kw): PROP.append(dict(id=id,title=title,statement=statement,over=over.split(),q=q,why=why,files=files.split(),mech=mech,note=note,**kw))
P('V01','A dumped value loads back equal to the original',
 'For every type without pointers and every value of it, dumping the value and loading the bytes into another value of the same type gives a value with the same data, whatever the target held before, and a second dump gives the same bytes. The number of bytes produced is what the size query announces, and buffer, stream, file descriptor and FILE* targets receive the same bytes. With padding kept apart, the bytes are exactly the data leaves in order, each container preceded by its 64-bit element count.',
 'inputs programs','All type trees of numerics, enums, strings, arrays (also of size 0), compounds with gaps and trailing padding, vectors and nested vectors up to the stated depth; all byte contents of source and target; all layout options.',
 'The tests dump a handful of fixed structs with fixed contents; the shapes of a layout (what is merged, what is skipped, what is nested) multiply and a wrong one shows only for particular combinations of padding, empty arrays and containers.',
 'typelib/value_ops.cc typelib/value_ops.hh typelib/memory_layout.cc lang/csupport/containers.cc',
 [('dump/load/getDumpSize over a MemoryLayout program','typelib/value_ops.cc'),('layout construction','typelib/memory_layout.cc:MemLayout::Visitor'),('container marshalling','lang/csupport/containers.cc:Vector::dump/load')],
 'Exhaustive within the bounds: every leaf byte, padding byte and prior target byte is symbolic, type trees are enumerated to the stated depth.')
P('V02','Loading untrusted bytes is memory safe and total',
 'Loading any byte string into a value of any type either succeeds or raises an exception; it never reads outside the given bytes, writes outside the value, or leaves the value in a state that cannot be destroyed and reused. A string that is shorter or longer than what the value needs is rejected, and one that is accepted determines every data leaf: dumping the result gives the same data back. Element counts read from the bytes are believed only as far as memory and the input can back them.',
 'inputs programs','All byte strings up to the stated length, including all 64-bit element counts, for all type trees in bounds and both fresh and used targets.',
 'Tests load back what they dumped themselves; hostile or truncated input has 2^64 element counts and every truncation point at every nesting level.',
 'typelib/value_ops.cc typelib/value_ops.hh lang/csupport/containers.cc',
 [('load() and its InputStream bounds checks','typelib/value_ops.cc'),('Vector::resize/load, String::load','lang/csupport/containers.cc')],
 'Memory safety is checked on every load and store of the interpreted bitcode against the exact extent of every allocation; allocations above a stated limit fail with bad_alloc.')
P('V03','Dumping into a bounded or failing sink never overruns and reports failure',
 'Dumping into a buffer of any given size either fits, in which case exactly the dumped bytes are written, or reports failure without writing beyond the end of the buffer. When the file descriptor or FILE* behind a dump writes partially or fails, the dump raises an exception unless every byte was delivered in order.',
 'inputs fault_sequences','All buffer sizes from 0 to more than needed, every sequence of partial and failing writes, for all type trees in bounds.',
 'The tests never give a short buffer at each possible cut nor a write that fails or is partial.',
 'typelib/value_ops.cc typelib/value_ops.hh',
 [('BufferOutputStream / dump overloads','typelib/value_ops.cc'),('FDOutputStream, FileOutputStream','typelib/value_ops.cc')],
 'write(2) and fwrite(3) are replaced by symbolic stand-ins whose results are chosen by the solver.')
P('V04','The memory layout of a type covers exactly its data, with any options',
 'For every type and every combination of layout options, the byte ranges a layout copies or skips are disjoint, in order, and together account for every byte of the type; copied bytes are data, skipped bytes are padding or opaque contents, and merging only joins neighbours. Pointers and opaque fields are refused wherever they are nested unless they are explicitly accepted. The initialisation program derived with the layout constructs each container at its place and zeroes nothing it should not.',
 'inputs programs','All type trees in bounds with symbolic leaf sizes, gaps, array dimensions and trailing padding; all option combinations.',
 'Tests compare a few hand-made layouts; sizes and gaps that make the merging and simplification steps go wrong are particular.',
 'typelib/memory_layout.cc typelib/memory_layout.hh',
 [('MemLayout::Visitor','typelib/memory_layout.cc'),('merge_skip_copy, simplify, simplifyInit, MemoryLayout::push*','typelib/memory_layout.cc')],
 'Sizes, gaps and dimensions are symbolic with few bits; the reference is a direct walk over the type.')
P('V05','Init, zero, copy, compare and destroy act on values leaf by leaf',
 'Initialising raw memory of any type gives a value in which every container is a valid empty one; zeroing a value makes every data leaf zero and every container empty; copying makes the target compare equal without sharing memory with the source and leaves the source alone; comparison is true exactly if all data leaves and element counts agree, whatever the padding holds. Destroying releases everything that was allocated, exactly once. Operations on two values of different types are refused.',
 'inputs programs','All type trees in bounds, all contents of both values and of the padding.',
 'Tests use a few structs with fixed contents, and leaks or sharing show only with nested containers.',
 'typelib/value_ops.cc typelib/value_ops_details.hh lang/csupport/containers.cc typelib/memory_layout.cc',
 [('init/zero/destroy/copy/compare walkers','typelib/value_ops.cc'),('Container operations','lang/csupport/containers.cc')],
 'Memory accounting is done by the interpreter: the number of live allocations is compared before and after.')
P('V06','Containers behave like the C++ containers they describe',
 'Through the generic interface, every sequence of push, erase, set, conditional deletion, copy, clear and comparison on a vector (push, copy, clear and comparison on a string) leaves exactly the elements that the same sequence leaves in the corresponding C++ container, with the elements constructed, copied and destroyed accordingly. The element count reported is always the number of elements, and values of another type than the elements are refused without changing the container.',
 'histories inputs','All operation sequences up to the stated length over element types from bytes to nested vectors and structures, with all contents.',
 'Tests run one fixed sequence per element type.',
 'lang/csupport/containers.cc lang/csupport/containers.hh typelib/typemodel.hh',
 [('Vector::resize/push/erase/delete_if/copy/compare','lang/csupport/containers.cc'),('String','lang/csupport/containers.cc')],
 'The real std::vector<uint8_t>/std::string representation is executed from libstdc++ header code in the bitcode.')
P('V07','Byte swapping reverses exactly the bytes of every multi-byte leaf',
 'Swapping a value reverses the bytes of each number and enumeration and changes nothing else; swapping twice gives the original back; the two-value form leaves its source alone. The precompiled swap and the visitor swap agree. Types for which swapping is not defined are refused instead of being swapped in part.',
 'inputs programs','All type trees in bounds and all contents.',
 'Tests swap one structure with fixed contents.',
 'typelib/endianness.cc typelib/endianness.hh typelib/endian_swap.hh',
 [('CompileEndianSwapVisitor','typelib/endianness.cc'),('EndianSwapVisitor','typelib/endianness.hh'),('swap','typelib/endian_swap.hh')],
 'Every data byte is symbolic.')
P('V08','A value visitor shows every leaf once, in place and with its own type',
 'Visiting a value shows every number, enumeration and opaque leaf exactly once, in declaration order, at its own address and with its own type, following pointers, arrays and containers; fields are announced in order. Converting a value to a C type succeeds exactly if size and signedness match and gives the stored value. Looking up a field by name gives the field at its offset with its type, or reports that it does not exist.',
 'inputs programs','All type trees in bounds, all contents, all queried names up to the stated length.',
 'Tests visit two structures.',
 'typelib/value.cc typelib/value.hh typelib/value_cast.hh typelib/typemodel.cc',
 [('ValueVisitor dispatch','typelib/value.cc'),('value_cast','typelib/value_cast.hh'),('value_get_field, Compound::getField','typelib/value.cc, typelib/typemodel.cc')],
 'Leaf addresses and types are compared with a direct walk.')
P('V09','Enumerations map symbols and values consistently',
 'A symbol has the value it was first given; a second declaration of it is refused unless it is the same; looking up a value gives a symbol that has that value, and fails exactly if none has it. The value proposed for the next symbol is one more than the last one added, starting from the initial value.',
 'histories inputs','All sequences of declarations over a few symbols up to the stated length with all 32-bit values; all lookups.',
 'Tests declare one enumeration.',
 'typelib/typemodel.cc typelib/typemodel.hh',
 [('Enum::add/get/names/getNextValue','typelib/typemodel.cc')],
 'Values are 32-bit symbolic.')
P('V10','CSV output has one column per leaf, in header order',
 'For every type made of numbers, enumerations, arrays, structures, pointers and opaques, the header names every column and each line holds exactly the value of each of these columns in the same order, separated by the given separator. Every column of what a NULL pointer would point to shows NULL. Numbers appear in decimal with their sign, enumeration values by symbol when there is one and as numbers otherwise.',
 'inputs programs','All type trees in bounds; all values of single bytes, 16-bit numbers and enumerations; structured values with stated contents.',
 'Tests print one structure.',
 'typelib/csvoutput.cc typelib/csvoutput.hh',
 [('HeaderVisitor / LineVisitor','typelib/csvoutput.cc')],
 'Decimal formatting is executed symbolically for single numbers; structure is explored with concrete contents.')

P('T01','Two types are the same exactly if they have the same definition',
 'isSame is true exactly if category, size and every member of two definitions agree, where types reached through fields, elements, pointers and containers are compared in the same way and names of structures, arrays and enumerations do not matter. Containers are the same only if they are of the same kind. It is reflexive and symmetric, ends on types that refer to themselves or to each other, and its answer does not depend on where in the definition a type is met first.',
 'inputs programs','Pools of three structures of up to two fields each that refer to each other by value, pointer, pointer to pointer, array and container, with symbolic sizes, offsets, field names, enum values, dimensions and numeric categories; all pairs of basic types with symbolic sizes.',
 'Recursive comparison is a greatest fixpoint; an error needs a particular graph of references to show, of which the tests build two.',
 'typelib/typemodel.cc typelib/typemodel.hh',
 [('Type::isSame, rec_compare, RecursionStack','typelib/typemodel.cc'),('Compound/Indirect/Container::do_compare','typelib/typemodel.cc')],
 'The reference is a greatest-fixpoint computation over the pool; attributes are symbolic, the graph shape is chosen by solver-forked choices.')
P('T02','A type casts to another exactly if the second can read the first',
 'canCastTo is true exactly if every field of the structures agrees in name, offset and castable type, elements of arrays and containers are the same type, and an enumeration of the source has no symbol that the target lacks or values differently; sizes of structures at the end of a value do not matter. Every type can be cast to itself and to every type that is the same.',
 'inputs programs','The same pools of mutually referring structures as for sameness, with symbolic attributes.',
 'The tests check a handful of pairs.',
 'typelib/typemodel.cc typelib/typemodel.hh',
 [('Type::canCastTo, rec_compare with equality=false','typelib/typemodel.cc'),('Enum/Compound/Indirect do_compare','typelib/typemodel.cc')],
 'The reference is a greatest-fixpoint computation over the pool.')
P('T03','Composed types have the sizes, names and dependencies of C types',
 'An array has dimension times the size of its elements, a pointer has the size of a pointer, and a structure ends where its last field ends unless it is given a larger size, which then counts as trailing padding. Fields keep the order in which they were added and the offset they were given, and normalising their order sorts them by offset. The dependencies of a type are exactly the types of its fields or its element.',
 'inputs','All sizes and offsets up to one byte for up to three fields, all array dimensions below the bound.',
 'Tests read a few sizes of fixed types.',
 'typelib/typemodel.cc typelib/typemodel.hh',
 [('Compound::addField, normalizeFieldOrder, getTrailingPadding','typelib/typemodel.cc'),('Array, Pointer, Type::dependsOn','typelib/typemodel.cc')],
 'Sizes and offsets are symbolic 8-bit values.')
P('T04','Resizing types moves exactly what lies behind or around them',
 'Registry::resize gives the named types the requested sizes; every structure and array that holds one of them by value grows accordingly and the fields behind it move by the same amount, once, in every structure that embeds it at any depth. Pointers and containers keep their size, padding is kept, types with an explicit size get that size, and names that are not known are refused.',
 'inputs programs','Two numeric types with symbolic old and new sizes, embedded with symbolic gaps in a structure that is itself embedded directly, in an array, behind a pointer or in a container by a second one; any subset of types resized, by name or by alias.',
 'The tests resize one nested structure once; errors show when sizes change in opposite directions or the graph has cycles.',
 'typelib/registry.cc typelib/typemodel.cc',
 [('Registry::resize','typelib/registry.cc'),('Type::resize, Compound::do_resize, Indirect::do_resize, Array::do_resize','typelib/typemodel.cc')],
 'Sizes, gaps and new sizes are symbolic; shapes are enumerated.')
P('R01','Names resolve to the definition in the innermost namespace',
 'After any sequence of definitions, aliases, removals and changes of the default namespace, an absolute name gives exactly what was last defined under it, and a relative name gives the definition found first when searching from the default namespace outwards. A name that is in use cannot be defined again, except as an alias of the type it already names. Iteration shows each name exactly once and size() counts them.',
 'histories','All sequences of up to the stated number of operations (add, alias, remove, namespace change, removeAlias, clearAliases) over up to seven names in five namespaces.',
 'The tests define names in one order; resolution depends on the history of definitions, shadowing and removals.',
 'typelib/registry.cc typelib/registry.hh typelib/registryiterator.hh typelib/typename.cc',
 [('Registry::add/alias/get/find_','typelib/registry.cc'),('updateCurrentNameMap, importNamespace, dropNamespace, setDefaultNamespace','typelib/registry.cc'),('remove, removeAlias, clearAliases','typelib/registry.cc')],
 'Every operation is a solver-forked choice; the reference is a map from names to definitions. Nothing leaked is checked by counting live allocations.')
P('R02','Removing a type removes exactly it and what depends on it',
 'Removing a type takes out the type and all types that refer to it directly or through others, under all their names, and returns exactly these; every other name stays and still gives the same type. reverseDepends gives the same set beforehand. A removed name can be defined again and nothing is leaked.',
 'histories inputs','All registries of up to the stated number of structures, pointers and arrays with all dependency graphs between them, one alias anywhere, and every type as the one removed.',
 'The tests remove one type from one registry.',
 'typelib/registry.cc typelib/registry.hh',
 [('Registry::remove, reverseDepends','typelib/registry.cc')],
 'Dependency graphs are enumerated by solver-forked choices and compared with a closure computed directly.')
P('R03','Merging registries copies what is missing, refuses conflicts, loses nothing',
 'Merging adds every definition and alias of the source that the target lacks, built from the types of the target, and keeps what the target had; afterwards both agree on every name of the source. A name that has different definitions in both is refused with an exception. Whether it succeeds or fails, the target refers only to its own types, the source is unchanged and nothing is leaked.',
 'inputs histories','All pairs of registries of up to the stated number of numerics, enumerations, structures, pointers, arrays, containers and recursive structures with differing attributes and aliases.',
 'The tests merge two compatible registries; conflicts at depth and recursive types have many shapes.',
 'typelib/registry.cc typelib/typemodel.cc',
 [('Registry::merge','typelib/registry.cc'),('Type::merge, try_merge, do_merge','typelib/typemodel.cc')],
 'Definitions are chosen by solver-forked choices; agreement is decided by comparing definitions structurally.')
P('R04','A minimal registry is the closure of what was asked for',
 'Registry::minimal gives a registry that holds the requested type, all it refers to, and the aliases of these when asked, with the same definitions, sources and persistence, and nothing else. The form that takes a set of known definitions keeps exactly the closure of what is not in that set. The original registry is unchanged and independent of the result.',
 'inputs','All registries of up to the stated number of types with all dependency graphs and aliases, and every type requested.',
 'The tests extract from one registry.',
 'typelib/registry.cc typelib/typemodel.cc',
 [('Registry::minimal (both forms), copySourceIDs','typelib/registry.cc'),('Type::merge','typelib/typemodel.cc')],
 'Dependency graphs are enumerated by solver-forked choices.')
P('R05','The registry order is total and prefix ranges are exact',
 'The order in which registries keep names is a strict total order in which a namespace comes directly before the names that extend it, so that all names with a given prefix are neighbours. Iterating over a prefix shows exactly the names that start with it, and find() gives exactly the defined names.',
 'inputs','All pairs and triples of names of arbitrary bytes up to the stated length; all subsets of seven names with all prefixes up to the stated length.',
 'An order is a statement about all pairs and triples of names.',
 'typelib/registry.cc typelib/registryiterator.hh typelib/typename.cc',
 [('nameSort','typelib/typename.cc'),('Registry::begin/end/find with prefix','typelib/registry.cc')],
 'Names consist of symbolic bytes.')
P('R06','Registries compare as the same exactly if names and definitions agree',
 'Registry::isSame is true exactly if both registries have the same names and each name has the same definition in both. It is reflexive and symmetric.',
 'inputs','All pairs of registries of up to the stated number of types of seven kinds with differing attributes, dependencies and aliases.',
 'The tests compare one pair.',
 'typelib/registry.cc typelib/typemodel.cc',
 [('Registry::isSame','typelib/registry.cc'),('Type::isSame','typelib/typemodel.cc')],
 'Definitions are chosen by solver-forked choices.')
P('R07','Exactly the well-formed derived names of known types can be built',
 'Registry::build turns the name of a known type followed by any sequence of pointer and array modifiers into the type this describes, registers it and all intermediate types under their canonical names, and gives the same type when asked again. Names of unknown types and malformed modifiers give no type and throw nothing. has() tells in advance, without building, whether build() succeeds.',
 'inputs','All strings of arbitrary bytes up to the stated length after a known type name, and all sequences of up to three whole modifiers including invalid ones.',
 'The tests build a few well-formed names; malformed ones have unbounded variety.',
 'typelib/typebuilder.cc typelib/registry.cc typelib/typename.cc',
 [('TypeBuilder::parse, build, getBaseTypename','typelib/typebuilder.cc'),('Registry::build, has','typelib/registry.cc')],
 'Suffixes are symbolic bytes; the reference is an independent recursive parser.')
P('R08','Valid type names have one structure, closed under derivation',
 'A name accepted as valid starts at the root, holds only valid characters, has balanced brackets, and is exactly its namespace followed by its base name and the concatenation of its components, where separators inside template arguments do not count. Appending pointer and array modifiers to a valid name or using it as a template argument gives a valid name again. Namespaces are normalised idempotently and exactly the valid ones can be set as default.',
 'inputs','All strings of arbitrary bytes up to the stated length, also after a template opening.',
 'The tests check some twenty names.',
 'typelib/typename.cc typelib/typename.hh typelib/registry.cc',
 [('isValidTypename, isValidNamespace, splitTypename, getTypename, getNamespace, getRelativeName','typelib/typename.cc'),('Registry::setDefaultNamespace, getFullName','typelib/registry.cc')],
 'Names consist of symbolic bytes.')
P('R09','A minimal path leads to the type and to no other',
 'The path that getMinimalPathTo gives for a type and a namespace leads to the namespace of the type when it is resolved from the given namespace outwards, and never to another namespace first: the first component of the path is not found nearer to the given namespace than where the path leads. Types below the given namespace are reached by their relative path.',
 'inputs','All types and namespaces of up to the stated depth with components of one or two letters over a three-letter alphabet, that is all coincidences between their components.',
 'The tests check a few pairs; shadowing needs repeated components.',
 'typelib/typename.cc',
 [('getMinimalPathTo','typelib/typename.cc')],
 'Components are symbolic letters.')
P('R10','Derived types are known under every alias of their element type',
 'After any interleaving of aliasing a type and building pointers, arrays and containers of it, directly or through an alias, the name of an alias followed by a modifier gives the same type as the type\'s own name followed by it, and the same holds for containers of it. Removing an alias removes the names derived from it, so that no name ever stands for something derived from another type, whatever the alias is given to later. A container is created once per kind and element type, and under the name made of both. Every name iterated over resolves to its type.',
 'histories','All sequences of up to the stated number of operations over two aliases that are added and removed, four derivations and one container.',
 'The tests alias before or after building, not both.',
 'typelib/registry.cc typelib/typebuilder.cc',
 [('Registry::add/alias handling of derived names','typelib/registry.cc'),('TypeBuilder::build','typelib/typebuilder.cc')],
 'Operations are solver-forked choices.')
P('L01','Types survive export to a tlb file and import of it',
 'Writing a registry as tlb and reading the result gives a registry with the same names, definitions, aliases, source ids and metadata for every type that does not refer to itself, whatever characters names, symbols, sources and metadata hold. Reading the same file a second time changes nothing.',
 'inputs','All registries of up to the stated number of types of ten kinds with symbolic sizes and offsets, metadata and source ids; all printable texts up to the stated length in each of the eleven places that hold text.',
 'The tests export one header file; escaping and ordering errors depend on particular texts and dependency graphs.',
 'lang/tlb/export.cc lang/tlb/import.cc typelib/exporter.cc typelib/importer.cc',
 [('TlbExport, TlbExportVisitor, xmlEscape','lang/tlb/export.cc'),('TlbImport, TypeNode loaders','lang/tlb/import.cc')],
 'libxml2 is replaced by a small model (rt/minixml.cc) that reads the same subset; native replays and cross-validation use the model as well. Source ids of containers are not part of the claim.')
P('L02','Importing a damaged or hostile tlb file is safe and leaves order irrelevant',
 'Reading any tlb document either succeeds or raises an exception; it never accesses memory it does not own, leaks, defines invalid names or leaves types that refer outside their registry, and existing definitions are kept. A file in which every definition refers only to definitions in the same file, without cycles, is accepted, others are refused, and the order of definitions does not matter.',
 'inputs','Every two-byte change at every position of four documents, every attribute value replaced or extended by up to three arbitrary bytes, all sequences of up to the stated number out of nine elements, all orders of five definitions.',
 'The tests read files that are correct.',
 'lang/tlb/import.cc typelib/importer.cc',
 [('TlbImport::load, getAttribute, loaders for each element','lang/tlb/import.cc')],
 'libxml2 is replaced by a small model (rt/minixml.cc); memory safety of libxml2 itself is outside.')
P('L03','Exporters see every persistent definition once, after its dependencies',
 'An exporter is given every persistent name of a registry exactly once, after all persistent definitions it refers to, between begin() and end(), whatever save() returns. Registries with types that refer to themselves are refused with an exception instead of looping.',
 'inputs','All registries of up to the stated number of types of seven kinds, all dependency graphs, one alias anywhere, persistent or not.',
 'The tests export one registry.',
 'typelib/exporter.cc typelib/registry.cc',
 [('Exporter::save','typelib/exporter.cc')],
 'Dependency graphs and answers of save() are solver-forked choices.')
P('L04','Exported IDL declares every type once, before its use, as defined',
 'The IDL written for a registry can be read back: modules are balanced and not empty, each name is declared once and before it is used, and structures, enumerations, typedefs and sequences have exactly the members, element types and dimensions of the definitions, under their namespace with the configured prefix and suffix. Aliases are declared once, whatever else carries their name. A leading underscore counts as the escape that IDL defines for identifiers. What IDL cannot express, such as sequences of arrays, is refused, opaques become any and large structures octet sequences only when asked, and reusing an exporter gives the same text.',
 'inputs histories','All registries of up to three enumerations and structures in up to four namespaces with fields of eight kinds, aliases, options and blob thresholds.',
 'The tests compare one file; module nesting and declaration order depend on the combination of namespaces and dependencies.',
 'lang/idl/export.cc lang/idl/export.hh typelib/exporter.cc',
 [('IDLExport::begin/save/end, IDLExportVisitor, adaptNamespace, generateTypedefs','lang/idl/export.cc')],
 'The text is parsed by an independent reader in the harness; shapes are solver-forked choices.')
P('C01','Options read back as they were stored',
 'After any sequence of set, insert, erase and child insertion on a configuration, each key gives exactly the values stored for it in order, the first one when one is asked for, and the default only when nothing is stored. Texts convert to numbers and booleans exactly if they are such, and otherwise raise an exception.',
 'histories inputs','All sequences of up to the stated number of operations over three keys with symbolic values; all texts of arbitrary bytes up to the stated length for conversion.',
 'The tests use one fixed configuration.',
 'typelib/utilmm/configset.cc typelib/utilmm/configset.hh',
 [('config_set::set/insert/erase/get/child','typelib/utilmm/configset.cc'),('details::convert','typelib/utilmm/configset.hh')],
 'Values are symbolic bytes, operations solver-forked choices.')
P('C02','Standard types have the size and sign they have in C++',
 'After adding the standard types, every way to spell a C++ integer type that is known names a numeric type of the size and signedness the compiler gives it, the usual spellings are all known, and so are the fixed-width, character, boolean and floating point types, strings and void. Adding them again changes nothing.',
 'inputs','All orders of all combinations of signed, unsigned, short, long, long long and int.',
 'The tests look up a few names.',
 'lang/csupport/standard_types.cc lang/csupport/standard_types.hh',
 [('CXX::addStandardTypes, normalizeIntegerName','lang/csupport/standard_types.cc')],
 'Spellings are solver-forked choices.')
P('C03','Plugins are found by name as long as the plugin manager is used',
 'After any sequence of acquiring and releasing the plugin manager and registering plugins, a name gives exactly the importer or exporter registered first under it and unknown names raise PluginNotFound; new registries hold the types of all type plugins. Plugins are deleted exactly once, with the last use of the manager, and importers and exporters after each use even if they fail.',
 'histories','All sequences of up to the stated number of operations over two uses, two names and three kinds of plugins.',
 'The tests register one plugin.',
 'typelib/pluginmanager.cc typelib/pluginmanager.hh typelib/utilmm/singleton',
 [('PluginManager::add/importer/exporter/registerPluginTypes/load/save','typelib/pluginmanager.cc'),('utilmm::singleton','typelib/utilmm/singleton')],
 'Operations are solver-forked choices; loading shared objects from the file system is replaced by an empty plugin directory.')
P('C04','Every usable plugin of the plugin path is loaded once, whatever else is there',
 'The first use of the plugin manager searches the directories of TYPELIB_PLUGIN_PATH in their order, or the built-in one if the variable is not set, and loads every shared object (.so, .dylib) in them exactly once for each time its directory is listed, and nothing else. The entry point of each is called exactly once and what it registers is found by name and used. Directories that are missing or empty, empty parts of the path, files that cannot be loaded and shared objects without entry point neither fail the use of the library nor keep the other plugins from being loaded.',
 'inputs configurations','All texts of the variable up to the stated length over separators and names of existing and missing directories; all contents of directories up to the stated number of files of every kind (plugin, unloadable, without entry point, other extension).',
 'The tests run with one fixed directory.',
 'typelib/pluginmanager.cc',[('PluginManager::PluginManager, loadPlugins, loadPluginFromDirectory','typelib/pluginmanager.cc')],
 'The text of the variable is symbolic bytes, directories and files solver-forked choices; boost::filesystem, dlopen, dlsym and getenv are stand-ins with the documented behaviour.')
RBN='The C++ extension runs on a stand-in for the Ruby interpreter (rt/rbrt.cc) that keeps the object layout of the installed headers. '
P('B01','Ruby numbers, symbols and strings convert exactly',
 'Assigning a Ruby number to an integer value of 32 or 64 bits stores exactly that number if the type can represent it and raises an exception without changing the value otherwise; smaller integers store every number of their range. Integers, floating point numbers and enumeration values read back as what is stored: with their sign, as the nearest value of the type, as the symbol of the value or nil when it has none. Enumerations take exactly their values and symbols. Strings go into character arrays exactly if they fit together with their terminator, never touch what is beside the array, are never written through pointers, and read back up to the first zero or the end of the array. NULL pointers raise.',
 'inputs','All values of all integer types, all doubles, symbols with any values, arrays of one to three characters with texts of any bytes.',
 'The tests assign a few small numbers; sign and range errors show only for values near the limits.',
 'bindings/ruby/ext/convert.cc bindings/ruby/ext/strings.cc bindings/ruby/ext/specialized_types.cc',
 [('typelib_to_ruby / typelib_from_ruby','bindings/ruby/ext/convert.cc'),('value_from_string, value_to_string','bindings/ruby/ext/strings.cc'),('enum_keys, enum_value_of, enum_name_of','bindings/ruby/ext/specialized_types.cc')],
 RBN+'Bytes, numbers and characters are symbolic.')
P('B02','Ruby accesses elements and fields in place and within bounds',
 'Elements of arrays and containers and fields of structures that Ruby obtains refer to the memory of the whole, in order, and carry the type of the element or field; numbers read as numbers. Indexes, ranges and field names outside are refused. Assigning an element or field changes exactly that one and refuses values of other types. Containers behave like the list of their elements under any sequence of push, assignment, erase, delete_if and clear, and raw copies take whole elements of plain memory only.',
 'inputs histories','All 64-bit indexes, all field names of two bytes, all operation sequences up to the stated length with all values.',
 'The tests use fixed indexes within small arrays.',
 'bindings/ruby/ext/specialized_types.cc bindings/ruby/ext/value.cc',
 [('array_get/set/do_each, container_*, compound_field_get/set','bindings/ruby/ext/specialized_types.cc')],
 RBN+'Indexes and values are symbolic, operations solver-forked choices.')
P('B03','Memory used by Ruby values stays valid while in use and is freed once',
 'Whatever Ruby values are created, accessed as children, cast, followed through pointers, invalidated and dropped, and whenever and in whatever order the garbage collector finalises them, the memory of every value that is still referred to keeps its contents and its address, and all memory that typelib allocated is released exactly once, at the latest when the interpreter ends. Memory of others is never freed, and addresses that the system allocator hands out again are not confused with their former use.',
 'histories schedules','All operation sequences up to the stated length over two buffers and up to four values, with marking and each single finalisation as separate steps in any order.',
 'The garbage collector runs rarely and in one order during the tests.',
 'bindings/ruby/ext/memory.cc bindings/ruby/ext/value.cc',
 [('memory_wrap, memory_register, memory_ref/unref, memory_init, memory_delete','bindings/ruby/ext/memory.cc'),('value_wrap, value_from_memory_zone, value_invalidate','bindings/ruby/ext/value.cc')],
 RBN+'Operations and the steps of the garbage collector are solver-forked choices, contents symbolic.')
P('B04','Ruby registries give one type object per type and never a dangling one',
 'After any sequence of creating, building, aliasing, removing, merging, extracting and resizing types from Ruby, a name gives the same type object every time, with the definition it was created with, and undefined names raise NotFound; enumeration yields every type or name once and aliases are those that were defined. Type objects stay usable after their type was removed and keep their registry alive. Definitions that mix types of different registries are refused, and a refused operation changes nothing.',
 'histories','All sequences of up to the stated number of operations over three names and their pointers and arrays, with garbage collections between them, and groups of operations on two registries.',
 'The tests run short fixed sequences and never remove types that are in use.',
 'bindings/ruby/ext/registry.cc bindings/ruby/ext/value.cc',
 [('registry_* methods','bindings/ruby/ext/registry.cc'),('type_wrap, class_of','bindings/ruby/ext/value.cc')],
 RBN+'Operations are solver-forked choices.')
P('B05','Whole Ruby values dump, load, copy, compare and swap as in C++',
 'The byte array of a Ruby value is what the C++ library dumps and marshalling_size its length; loading it into any value of the type gives an equal value, and byte arrays that are too short or too long raise ArgumentError. Copying gives an equal and independent value, also between equal types of two registries; comparison tells exactly whether the data are equal; values of different types are neither copied nor compared and stay as they are. endian_swap and endian_swap! reverse every number, zero! sets every number to zero and empties containers.',
 'inputs programs','Nine types of numbers, enumerations, structures with padding, arrays, vectors and strings; all contents and padding of both values; every cut of the byte array.',
 'The tests use a few fixed values.',
 'bindings/ruby/ext/value.cc',
 [('value_do_byte_array, value_do_from_buffer, typelib_do_copy, typelib_compare, value_endian_swap, value_zero','bindings/ruby/ext/value.cc')],
 RBN+'Contents and padding are symbolic.')
P('B06','Metadata, names, layouts, import and export reach Ruby unchanged',
 'Metadata of types, fields and free objects has exactly the keys and values that were added and not removed, and keeps its type alive. Base names, namespaces, name components, memory layouts and CSV texts seen from Ruby are those of the C++ library. Options of import and export arrive at the importer and exporter as given, nested ones included; errors, unknown formats and types without layout raise Ruby exceptions instead of ending the process, and a failed merging import adds nothing.',
 'inputs histories','All sequences of metadata operations up to the stated length, all names of arbitrary bytes up to the stated length, all layout flags, up to two options of five kinds.',
 'The tests look at a few entries.',
 'bindings/ruby/ext/metadata.cc bindings/ruby/ext/value.cc bindings/ruby/ext/registry.cc',
 [('metadata_*','bindings/ruby/ext/metadata.cc'),('layout_to_ruby, init_layout_to_ruby, typelib_do_*name','bindings/ruby/ext/value.cc'),('registry_import, registry_export, setup_configset_from_option_array','bindings/ruby/ext/registry.cc')],
 RBN+'Names are symbolic bytes, operations solver-forked choices.')
# properties no check decides
P('I01','C++ declarations import as the compiler lays them out',
 'For every declaration that the clang importer is given, the type it adds has the size, the members, the offsets, the values, the element types and the lengths that the compiler gave to the declaration: members of base classes are where the base class is, and enumerations have the size of the C++ type. What Typelib cannot describe (members that are private, pointers, references, arrays of arrays, unaligned members, polymorphic classes, members of virtual or private bases, several members of one name, enumerations of other sizes than int, types without a name or in anonymous namespaces, functions or private sections, and everything made of such types) is left out, and nothing that would be wrong is added. The import of a declaration never ends the importer, and its result does not depend on the order or the number of times in which the declarations are visited.',
 'inputs histories','All records of up to the stated number of members of every kind, all class hierarchies of up to three classes, all enumerations up to the stated number of values, with all sizes, offsets, values, accesses and names of the stated kinds; all sequences of visits up to the stated length over three sets of 24 to 30 declarations. Bit fields, unions and std::vector<bool> are excluded.',
 'The importer is not built by default and its tests import a few headers; what goes wrong are inherited members, names, accesses and orders that these headers do not have.',
 'tools/typelib-clang-tlb-importer/TypelibBuilder.cpp tools/typelib-clang-tlb-importer/TypelibBuilder.hpp',
 [('records, bases, enumerations, arrays, containers, typedefs','tools/typelib-clang-tlb-importer/TypelibBuilder.cpp')],
 'The AST of clang is replaced by a stand-in (rt/clang) whose sizes, offsets and values are symbolic; kinds, accesses and orders are enumerated.')
P('I02','C++ names become Typelib names and back',
 'Every name of a C++ type, as clang prints it (scopes, template arguments that are types or integers, nested templates, array dimensions, qualifiers of arguments, both spacings that versions of clang use), becomes the absolute Typelib name with the same parts, which is a valid name; converting it back gives the same C++ name. The inline namespaces of the standard libraries are no part of the name.',
 'inputs','All names up to the stated number of parts, arguments and nesting, with arbitrary identifiers of one or two characters and numbers of either sign.',
 'Tests import a few templates; names of one letter, negative arguments, arguments that end in a template and members of templates are not among them.',
 'tools/typelib-clang-tlb-importer/NamingConversions.cpp tools/typelib-clang-tlb-importer/IgnoredOrRenamedTypes.cpp',
 [('cxxToTypelibName/typelibToCxxName','tools/typelib-clang-tlb-importer/NamingConversions.cpp'),('renamed types','tools/typelib-clang-tlb-importer/IgnoredOrRenamedTypes.cpp')],
 'Identifiers and numbers are symbolic characters, the structure of the name is enumerated.')
P('I03','Imported types know where they come from, and opaques stay opaque',
 'Types that the clang importer adds carry the file and line of their declaration, their C++ name, the text of their comment and the names of their base classes, once each. A declaration that is an opaque of the registry leaves the opaque as it is and adds this information to it, an opaque typedef also stands for the type it names, declarations that are no opaques change nothing, and types that use an opaque, directly or in an array, refer to it.',
 'inputs','All declarations of the stated kinds, with up to three bases or a comment of up to the stated number of blocks of every kind, with arbitrary text; all sizes and offsets.',
 'The tests compare a few headers whose comments and opaques are all of one form.',
 'tools/typelib-clang-tlb-importer/HandleMetaData.cpp tools/typelib-clang-tlb-importer/TypelibBuilder.cpp',
 [('metadata','tools/typelib-clang-tlb-importer/HandleMetaData.cpp'),('registerOpaque','tools/typelib-clang-tlb-importer/TypelibBuilder.cpp')],
 'The AST of clang is replaced by a stand-in (rt/clang). Of the line breaks of comments, only those between lines of text are compared.')
P('N02','The clang importer visits every declaration of the main header',
 'The command line tool gives every type declaration of the given headers, and of every opaque, to the builder.',
 'inputs programs','All header files.','The tests import a few headers.',
 'tools/typelib-clang-tlb-importer/main.cpp',[('main','tools/typelib-clang-tlb-importer/main.cpp')],'')
P('N03','The Ruby classes present typelib values as Ruby objects',
 'The Ruby half of the bindings (accessors by name, conversions to and from Ruby objects, caching of children and their invalidation, specialisations) agrees with the value it wraps after any sequence of operations.',
 'inputs histories','All values and all sequences of accesses.','The tests exercise fixed values.',
 'bindings/ruby/lib',[('Typelib::Type and its subclasses','bindings/ruby/lib/typelib')],'')
NA+=[('N02','The tool is a list of matchers that the clang front end evaluates while it parses: what it visits is defined by code of clang, which is far out of reach of the interpreter and is not part of this repository. What it does with each declaration is covered by I01 to I03.'),
 ('N03','This half of the bindings is Ruby code: there is no compiler from it to an intermediate representation that the interpreter could execute, and executing the Ruby interpreter itself symbolically is out of reach. The C++ half is covered by B01 to B06.')]
