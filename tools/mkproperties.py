import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
NT="No C++ unit test runs in this baseline (Catch2 is too old), so "
p("C01","Collection IDs are a fixed function of the collection name",
 "The ID that is assigned to a collection name is always the 32-bit MurmurHash3 (x86 variant, seed 0) of the complete sequence of bytes of that name, whatever its length and content. It does not depend on which names were registered before, on the table or Frame in which it is registered, or on the process.",
 ["inputs","histories"],"all byte strings as names (every length, every remainder modulo the 4-byte block size), and every registration history before them",
 NT+"even the handful of golden hashes in the repository is not checked; no finite list of names exercises every block count, every tail length and every byte value, and stored files depend on all of them.",
 ["src/MurmurHash3.cpp","src/CollectionIDTable.cc","include/podio/Frame.h"],
 [("MurmurHash3_x86_32 block loop, tail switch and finalisation","src/MurmurHash3.cpp"),("CollectionIDTable::add hashes the whole name with seed 0","src/CollectionIDTable.cc"),("Frame::put assigns the ID from the table","include/podio/Frame.h")])
p("C02","The collection ID table is a consistent two-way mapping",
 "After any sequence of registrations a collection ID table maps every registered name to exactly one ID and that ID back to the same name, registering a name again changes nothing and returns the same ID, and names or IDs that were never registered are reported as absent. Names and IDs are listed in registration order with matching positions, and a table constructed from given lists of IDs and names reproduces exactly these pairs.",
 ["inputs","histories"],"all sequences of add / lookup operations with arbitrary names, starting from an empty table or from arbitrary consistent lists (names whose hashes collide excluded, see known findings)",
 NT+"a lookup or an insertion that goes wrong only for one particular position, table size or order of registrations is invisible to build-time tests.",
 ["src/CollectionIDTable.cc","include/podio/CollectionIDTable.h"],
 [("add: find-or-append on both lists","src/CollectionIDTable.cc"),("name / collectionID / present lookups","src/CollectionIDTable.cc")],
 [("m_names / m_collectionIDs","parallel lists of names and IDs, same length, pairwise distinct names","include/podio/CollectionIDTable.h")])
p("C03","Parameter store returns exactly what was last set, per type and key",
 "For every sequence of operations on a parameter store, reading a key with a supported type returns exactly the value(s) last stored under that key for that type (a single value being the one-element list, and the first element when read as a single value) and is empty if nothing was ever stored. Storing one key never changes any other key or the same key of another type, the lists of keys and of keys with values contain each stored key exactly once with its values, and copies are independent of the original.",
 ["inputs","histories"],"all sequences of set / get / key listing / bulk loading / copying, over int, float, double and string values, single and vector valued, all keys and values",
 NT+"the store is a map with type-dispatched access, so an error that touches only another key, another type, an overwrite, or an empty vector needs a specific history.",
 ["include/podio/GenericParameters.h","src/GenericParameters.cc","include/podio/Frame.h"],
 [("set/get/getKeys/getKeysAndValues/loadFrom","include/podio/GenericParameters.h"),("copy construction","src/GenericParameters.cc"),("Frame::putParameter / getParameter / getParameterKeys","include/podio/Frame.h")],
 [("m_intMap, m_floatMap, m_doubleMap, m_stringMap","one map from key to list of values per supported type","include/podio/GenericParameters.h")])
p("C04","A Frame's names are write-once and resolve to exactly the stored data",
 "A collection put into a Frame under a name is found under that name (and only that name) with unchanged contents for the rest of the Frame's life, and carries the ID that the Frame's name lookup maps back to that name. Putting a second collection under a name that is already in use fails with an exception and changes neither the stored collections nor the list of names; a name that was never put is reported as not available, and the list of available collections contains every name exactly once.",
 ["inputs","histories"],"all sequences of put / get / getName / getAvailableCollections with arbitrary collection types and names, including moving the Frame",
 NT+"the guarantee is over histories: a second put, a failed put, a get of the wrong type or a lookup after further insertions each have to be in the history for an error to show.",
 ["include/podio/Frame.h","src/CollectionIDTable.cc"],
 [("FrameModel::put (insert-if-absent, set ID)","include/podio/Frame.h"),("FrameModel::doGet / get","include/podio/Frame.h"),("availableCollections","include/podio/Frame.h")],
 [("m_collections","name -> owned collection","include/podio/Frame.h"),("m_idTable","name <-> ID","include/podio/Frame.h")])
p("C05","A Frame unpacks stored data on demand, completely and once",
 "Getting a collection that exists only as raw data yields a collection with the stored contents, the collection ID recorded for that name, and all relations resolved to the objects in the other collections of the same Frame, including cyclic and self relations and subset collections. It is unpacked at most once, so repeated gets return the same collection, the result does not depend on the order in which collections are asked for, and the raw data's parameters are available unchanged.",
 ["inputs","histories"],"all raw data contents (relation graphs, subset collections, missing collections) and all orders of get calls",
 NT+"no I/O backend is built here, and the order dependent recursion (relations that pull in other collections) only shows with particular graphs and particular orders of access.",
 ["include/podio/Frame.h","python/templates/CollectionData.cc.jinja2","python/templates/macros/collections.jinja2","include/podio/detail/RelationIOHelpers.h"],
 [("FrameModel::doGet: unpack, evolve, prepareAfterRead, setID, setReferences","include/podio/Frame.h"),("ICollectionProvider::get by ID","include/podio/Frame.h"),("setReferences","python/templates/CollectionData.cc.jinja2")])
p("C06","Buffers are created by the factory function registered for the exact version",
 "Asking for read buffers of a collection type and schema version yields exactly what the creation function registered for that type and that version produces for the requested kind (subset or not), whatever else was registered before or afterwards and in whichever order. A type that is not known, version 0, or a version beyond every version registered for the type yields no buffers.",
 ["inputs","histories"],"all registration histories over arbitrary types and versions (increasing, decreasing, gaps, repeated) and all lookups",
 NT+"registration order depends on library loading; lookups for versions in gaps, beyond the newest or equal to zero are not exercised by any test.",
 ["src/CollectionBufferFactory.cc","include/podio/CollectionBufferFactory.h"],
 [("registerCreationFunc","src/CollectionBufferFactory.cc"),("createBuffers","src/CollectionBufferFactory.cc")],
 [("m_funcMap","type -> list of creation functions, position version-1","include/podio/CollectionBufferFactory.h")])
p("C07","Schema evolution applies exactly the function registered for a stored version",
 "Buffers of a known type that are already at the current schema version come back unchanged; buffers at an older version are passed exactly once to the evolution function registered for that type and that version, and its result is returned. An evolution function provided by the user takes precedence over an automatically generated one irrespective of the order of registration, and buffers of an unknown type, or of a version the type never had, come back unchanged.",
 ["inputs","histories"],"all registration histories (types, current versions, from-versions, priorities, orders) and all (type, from-version) requests",
 NT+"the outcome depends on the order in which libraries register their functions and on version numbers at the edges of the registered range.",
 ["src/SchemaEvolution.cc","include/podio/SchemaEvolution.h"],
 [("registerEvolutionFunc","src/SchemaEvolution.cc"),("evolveBuffers","src/SchemaEvolution.cc")],
 [("m_versionMapIndex / m_evolutionFuncs","type -> (index, current version) and per type list of functions by from-version","include/podio/SchemaEvolution.h")])
p("C08","The datamodel registry returns each registered definition unchanged",
 "Every datamodel registered under a name is found again under that name and under the index returned by its registration, with its definition, version and the relation and vector member names of its types unchanged. Registering the same name again returns the same index and leaves the registered definition as it is, and unknown names, indices or types give the documented not-available answers.",
 ["inputs","histories"],"all sequences of registrations and lookups of arbitrary names, definitions, versions and relation name lists",
 NT+"the order of registration is decided by the dynamic loader, and only one or two datamodels are ever registered in a test process.",
 ["src/DatamodelRegistry.cc","include/podio/DatamodelRegistry.h","src/DatamodelRegistryIOHelpers.cc"],
 [("registerDatamodel","src/DatamodelRegistry.cc"),("getDatamodelDefinition / getDatamodelName / getDatamodelVersion / getRelationNames","src/DatamodelRegistry.cc"),("DatamodelDefinitionCollector / Holder","src/DatamodelRegistryIOHelpers.cc")])
p("C09","Objects in a collection are identified by collection ID and position",
 "Every object created in or pushed into a collection that owns its objects gets the next free position as its index, is the object returned by element access at this position, and its object ID is that index together with the collection's ID. Setting the collection's ID changes the collection part of the ID of all its objects, past and future, and nothing else; clearing or adding objects never changes the position or contents of objects that stay.",
 ["inputs","histories"],"all sequences of create / push_back / setID / clear / move on collections of every generated datatype, of links, with all member values",
 NT+"an off-by-one in the index, a missed element in an ID update or a stale ID after a move needs a particular size and order of operations.",
 ["python/templates/Collection.cc.jinja2","python/templates/CollectionData.cc.jinja2","include/podio/detail/LinkCollectionImpl.h"],
 [("create / push_back / setID / operator[] / at / size","python/templates/Collection.cc.jinja2"),("the same for links","include/podio/detail/LinkCollectionImpl.h")])
p("C10","Subset collections reference objects and never own or re-identify them",
 "A subset collection contains exactly the objects pushed into it, in that order; each keeps the object ID of the collection that owns it, and modifying, clearing or destroying the subset collection leaves these objects intact. Creating objects in a subset collection, pushing an object that is not owned by any collection into it, pushing an object that already belongs to a collection into another owning collection, or changing the subset nature of a non-empty collection is rejected with an exception that leaves the collection unchanged.",
 ["inputs","histories"],"all sequences of operations on owning and subset collections of all generated datatypes and links",
 NT+"ownership errors need a subset collection that outlives or predeceases the owning collection, or one of the rejected operations followed by further use.",
 ["python/templates/Collection.cc.jinja2","python/templates/CollectionData.cc.jinja2","include/podio/detail/LinkCollectionImpl.h","include/podio/detail/LinkCollectionData.h"],
 [("push_back / create / setSubsetCollection / clear","python/templates/Collection.cc.jinja2"),("makeSubsetCollection / clear / prepareForWrite","python/templates/CollectionData.cc.jinja2")])
p("C11","Writing and reading back a collection's buffers restores the same data",
 "For every collection, the buffers produced for writing hold, per object and in order, its members, its vector members and the object IDs of everything it relates to (and only the object IDs for a subset collection), and a collection built from these buffers, after resolving references, equals the original in all members, vector members and relations. Preparing for writing does not change what the collection's objects report.",
 ["inputs"],"all collections of every generated datatype and link: all sizes, member values, numbers of relations and vector elements per object, missing single relations, and subset collections",
 NT+"no I/O backend is built, so nothing exercises the index bookkeeping that cuts one combined vector into per-object ranges, where errors only show for particular numbers of entries in particular objects.",
 ["python/templates/CollectionData.cc.jinja2","python/templates/macros/collections.jinja2","include/podio/detail/LinkCollectionData.h","include/podio/detail/RelationIOHelpers.h","include/podio/UserDataCollection.h"],
 [("prepareForWrite / prepareAfterRead / setReferences","python/templates/CollectionData.cc.jinja2"),("prepare_for_write_* / set_references_*","python/templates/macros/collections.jinja2"),("createBuffers","python/templates/Collection.cc.jinja2")])
p("C12","Members and relations of an object report exactly what was set",
 "Getting a member of an object, an element of an array member or a member of a nested component returns the value last set for it and setting one member changes no other. One-to-many relations and vector members contain exactly the elements added, in order, with matching size, indexed access and iteration ranges, one-to-one relations refer to the object last set or are reported as unavailable, and out-of-range access throws.",
 ["inputs","histories"],"all sequences of setters, adders and getters on mutable objects of every generated datatype, seen through mutable and immutable handles",
 NT+"the accessors are generated for each member, so an error can be confined to one kind of member, an index other than zero or a second addition.",
 ["python/templates/macros/implementations.jinja2","python/templates/Object.cc.jinja2","python/templates/MutableObject.cc.jinja2","include/podio/RelationRange.h"],
 [("member_getters / member_setters / single_relation_* / multi_relation_handling","python/templates/macros/implementations.jinja2"),("RelationRange","include/podio/RelationRange.h")])
p("C13","An object lives exactly as long as something owns it",
 "An object that is not part of a collection stays alive and unchanged as long as at least one handle refers to it and is freed exactly once when the last one goes away, for every sequence of copying, moving, assigning, swapping, unlinking and destroying handles. Handing an object over to a collection transfers ownership, so the handles stay usable while the collection lives and destroying them frees nothing.",
 ["histories","inputs"],"all sequences of handle operations (copy, move, self-assignment, swap, unlink, conversion to immutable, release into a collection) on any number of handles",
 NT+"a leak, double free or use-after-free needs a particular order of handle operations and is not visible without instrumentation.",
 ["include/podio/utilities/MaybeSharedPtr.h","python/templates/Collection.cc.jinja2","python/templates/Obj.cc.jinja2"],
 [("MaybeSharedPtr reference counting and release()","include/podio/utilities/MaybeSharedPtr.h"),("push_back takes ownership","python/templates/Collection.cc.jinja2")],
 [("control block","count of owning handles plus owned flag; absent for unowned handles","include/podio/utilities/MaybeSharedPtr.h")])
p("C14","A clone equals its original and is independent of it",
 "Cloning an object, mutable or not, inside a collection or not, yields a new object that is not part of any collection and has equal members and equal vector members and relations (if these are excluded on request, they are empty instead). Later changes to either the clone or the original are not visible in the other, and the clone stays valid when the original's collection is gone.",
 ["inputs","histories"],"all objects of every generated datatype and links, with arbitrary contents, created by hand or read from buffers (where relations are slices of shared vectors), cloned with and without relations",
 NT+"slices of shared relation vectors only appear for objects that were read, and independence only shows when both sides are modified afterwards.",
 ["python/templates/macros/implementations.jinja2","python/templates/Obj.cc.jinja2","include/podio/detail/Link.h","include/podio/detail/LinkObj.h"],
 [("clone","python/templates/macros/implementations.jinja2"),("Obj copy constructor","python/templates/Obj.cc.jinja2"),("Link clone","include/podio/detail/Link.h")])
p("C15","Iteration and indexing visit every element once, in order",
 "Iterating over a collection, forwards or backwards, by range-for, iterator arithmetic or reverse iterators, visits exactly the elements that indexed access returns, in index order, once each. Iterator differences, comparisons and offsets obey the laws of integer positions, checked element access throws for every index at or beyond the size, and the member-wise vector access lists one value per object in order.",
 ["inputs"],"all sizes of collections of every generated datatype, links and user data, all pairs of iterators and all offsets within range",
 NT+"random access laws quantify over all pairs of positions and offsets; a sign or offset error can be invisible in plain range-for use.",
 ["python/templates/macros/iterator.jinja2","python/templates/Collection.h.jinja2","python/templates/Collection.cc.jinja2","include/podio/detail/LinkCollectionIterator.h","include/podio/UserDataCollection.h"],
 [("generated iterators","python/templates/macros/iterator.jinja2"),("link iterators","include/podio/detail/LinkCollectionIterator.h")])
p("C16","Links report the two objects and the weight they were given",
 "A link returns exactly the from object, to object and weight that were last set, unset ends are unavailable, and setting one of the three never changes the others; access by type, by name and by structured binding agree, and a link equals and hashes like every other handle to the same link. Link collections keep the links in order with their ends and weights through creation, subset collections, and writing and reading back.",
 ["inputs","histories"],"all sequences of operations on links and link collections, between equal, different and interface types, with all weights",
 NT+"from/to mix-ups are invisible with symmetric inputs, and types used for both ends need their own histories.",
 ["include/podio/detail/Link.h","include/podio/detail/LinkObj.h","include/podio/detail/LinkCollectionImpl.h","include/podio/detail/LinkCollectionData.h"],
 [("LinkT getters, setters, get<T>, clone","include/podio/detail/Link.h"),("LinkCollection create / push_back / prepareForWrite / setReferences","include/podio/detail/LinkCollectionImpl.h")])
p("C17","Looking up linked objects returns exactly the linked ones with their weights",
 "For every object, looking up its linked objects in one direction returns exactly the objects at the other end of those links of the given collection that have this object at this end, one entry per link, each with its link's weight. Objects without links give an empty result, and the two directions never mix even if both ends have the same type.",
 ["inputs"],"all link collections (multiple links per object, repeated pairs, loops, equal types on both ends) and all queried objects",
 NT+"the lookup depends on the whole multigraph of links; errors such as dropping a repeated pair or mixing directions need particular graphs.",
 ["include/podio/LinkNavigator.h"],
 [("constructor fills both directed maps","include/podio/LinkNavigator.h"),("getLinked with and without direction tags","include/podio/LinkNavigator.h")])
p("C18","User data collections behave like the vector of values they store",
 "A user data collection of any supported basic type holds exactly the values pushed or assigned into it, in order, through creation from a vector, element access, iteration, resizing, clearing and moving, and its write buffers expose exactly these values. Checked access beyond the end throws, moving a collection transfers the values and the ID, and it is never a subset collection.",
 ["inputs","histories"],"all sequences of operations and all values, for each supported basic type",
 NT+"a move or re-assignment that loses values or buffers that point to the wrong vector needs a particular history.",
 ["include/podio/UserDataCollection.h","src/UserDataCollection.cc"],
 [("UserDataCollection operations","include/podio/UserDataCollection.h"),("getBuffers / createBuffers","include/podio/UserDataCollection.h")])
p("C19","Version numbers compare lexicographically and round-trip their encoding",
 "Versions compare by major, then minor, then patch, consistently over all comparison operators. Encoding a version whose parts are in the supported range into one integer and decoding it gives back the same version, and the order of the encoded integers is the order of the versions.",
 ["inputs"],"all triples of 16 bit version parts for comparison, all versions with minor and patch below 1000 for the encoding",
 NT+"nothing tests versions; the claim is about all pairs of versions.",
 ["podioVersion.in.h"],
 [("Version::operator<=> and ==, decode_version, PODIO_BUILD_VERSION","podioVersion.in.h")])
p("C20","File name patterns are detected and expanded exactly",
 "A string is treated as a pattern exactly if it contains an unescaped wildcard character (*, ?, [ or {), and expanding a pattern gives exactly the matching paths. Plain file names pass through unchanged, and a pattern without match is reported as an error.",
 ["inputs"],"all strings, including escapes and empty strings",
 NT+"the detection loop has state (escape) that only particular strings of several characters reach.",
 ["src/Glob.cc","include/podio/utilities/Glob.h"],
 [("is_glob_pattern / expand_glob","src/Glob.cc")])
p("C21","Handle and ID equality, order and hash are mutually consistent",
 "Two handles are equal exactly if they refer to the same object, whether they are mutable, immutable or wrapped in an interface type; less-than is a strict total order on distinct objects that is consistent with equality, and equal handles have equal hashes. Object IDs are equal exactly if index and collection ID are both equal, and equal IDs have equal hashes.",
 ["inputs","histories"],"all handles to all objects and all object IDs",
 NT+"order and hash laws quantify over all pairs and triples of objects.",
 ["include/podio/detail/OrderKey.h","include/podio/ObjectID.h","python/templates/Object.h.jinja2","python/templates/MutableObject.h.jinja2","python/templates/Interface.h.jinja2","python/templates/macros/declarations.jinja2","include/podio/utilities/MaybeSharedPtr.h"],
 [("OrderKey comparison","include/podio/detail/OrderKey.h"),("ObjectID comparison and hash","include/podio/ObjectID.h"),("generated comparison operators and hash","python/templates/macros/declarations.jinja2")])
p("C22","Interface types expose exactly the object they hold",
 "An interface handle reports as held type exactly the datatype it was constructed from, returns that very object when asked for it as this type and throws for every other type, and all its common getters, ID and availability agree with those of the held object. Copies and assignments refer to the same object, and an empty interface handle is not available.",
 ["inputs","histories"],"all interface types of the datamodel, all held datatypes, mutable and immutable sources, all sequences of copy, assignment and unlink",
 NT+"the dispatch is generated per interface and per held type, and each combination has to behave.",
 ["python/templates/Interface.h.jinja2","python/templates/macros/interface.jinja2"],
 [("isA / as / getters / equality","python/templates/Interface.h.jinja2")])
p("C23","I/O buffers are owned by exactly one holder and freed exactly once",
 "Moving read buffers transfers everything they hold and leaves the source empty, and the data, relation and vector member buffers that nobody took over are freed exactly once when the last holder goes away. Creating a collection from buffers, or evolving them, never leaks, frees twice or uses freed buffers.",
 ["histories","inputs"],"all sequences of moving, assigning, consuming and dropping read buffers of all generated types, links and user data, subset or not",
 NT+"ownership errors need a particular sequence (for example move assignment over live buffers) and are invisible without instrumentation.",
 ["include/podio/CollectionBuffers.h","python/templates/Collection.cc.jinja2","python/templates/CollectionData.cc.jinja2"],
 [("CollectionReadBuffers move operations and destructor","include/podio/CollectionBuffers.h"),("createBuffers / deleteBuffers","python/templates/Collection.cc.jinja2")])
p("C24","Text helpers split and sort without losing or inventing text",
 "Splitting a string at a delimiter yields the pieces in order such that joining them with the delimiter restores the string, with no delimiter inside a piece. Sorting names alphabetically ignores case and returns a permutation of its input.",
 ["inputs"],"all strings and delimiters, all lists of names",
 NT+"empty strings, leading, trailing or repeated delimiters and names differing only in case are the inputs that distinguish implementations.",
 ["include/podio/utilities/MiscHelpers.h"],
 [("splitString / sortAlphabeticaly","include/podio/utilities/MiscHelpers.h")])
p("C25","Shared stores are only touched while their lock is held",
 "Every operation of the parameter store, the collection ID table and the Frame that may run concurrently with another one reads or changes the shared contents only while holding the lock that guards these contents, and releases it on every path. Hence concurrent calls of these operations behave like some sequential order of them.",
 ["schedules","inputs"],"all public operations documented or built for concurrent use and all control-flow paths through them",
 NT+"no test runs two threads, and a missing lock shows only under rare interleavings.",
 ["include/podio/GenericParameters.h","src/GenericParameters.cc","src/CollectionIDTable.cc","include/podio/Frame.h"],
 [("lock_guard at the head of each operation","include/podio/GenericParameters.h"),("table mutex","src/CollectionIDTable.cc"),("map and data mutex","include/podio/Frame.h")])
p("P01","Comparing two datamodels reports exactly their differences",
 "Comparing a new with an old datamodel reports every component and datatype that was added or dropped, every member, vector member and relation that was added or dropped in a type present in both, and every member present in both whose type changed, and nothing else. In particular a datamodel compared with itself yields no change, and swapping old and new swaps additions and removals.",
 ["inputs"],"all pairs of valid datamodels",
 "The existing detection tests cover 14 pairs of datamodels; each kind of difference in each category of members has to be reported for arbitrary models.",
 ["python/podio_schema_evolution.py"],
 [("DataModelComparator","python/podio_schema_evolution.py")])
p("P02","Schema changes are accepted, matched or refused by the documented rules",
 "For every set of detected changes, every added or dropped vector member or relation is refused with an error, as is every type change between arrays and non-arrays or from one component type to another; all other changes are accepted. A dropped and an added member of equal type in the same class become a rename exactly if the evolution file declares it and otherwise give a warning, and no change is lost or duplicated in the outcome.",
 ["inputs"],"all pairs of valid datamodels and all evolution files",
 "The existing tests judge one change at a time; combinations of several drops, additions and declared renames decide whether changes are lost or misattributed.",
 ["python/podio_schema_evolution.py","python/podio_gen/schema_evolution.py"],
 [("SchemaEvolutionJudge","python/podio_schema_evolution.py"),("SchemaMigrationReader","python/podio_gen/schema_evolution.py")])
p("P03","Member definitions parse to their parts and survive a round trip",
 "Every well-formed member definition parses into exactly its type, name, array size, default value, unit and description, and writing a parsed member back in its canonical form and parsing that again gives the same member. Definitions that lack a name, use a disallowed type, or lack a required description are refused.",
 ["inputs"],"all member definition strings built from supported types, names, default values, units, descriptions and whitespace",
 "The unit tests sample some dozens of strings; the parser is a set of interacting regular expressions whose combinations (spaces, default values, units, arrays) are not covered.",
 ["python/podio_gen/podio_config_reader.py","python/podio_gen/generator_utils.py"],
 [("MemberParser","python/podio_gen/podio_config_reader.py"),("MemberVariable and its JSON form","python/podio_gen/generator_utils.py")])
p("P04","Exactly the well-formed datamodel definitions are accepted",
 "A datamodel definition is accepted only if all its keys are known and all required ones are present, every member, vector member, relation, interface and link refers to a type that is defined in this or the upstream datamodel and allowed in that place, and no two accessible member names of a type clash. Every definition that satisfies these rules is accepted, and the validation changes nothing but filling in empty defaults.",
 ["inputs"],"all datamodel definitions, with and without an upstream datamodel",
 "The unit tests check single mutations of one small model; combinations, positions other than the first and upstream models are not reached.",
 ["python/podio_gen/podio_config_reader.py"],
 [("ClassDefinitionValidator","python/podio_gen/podio_config_reader.py"),("PodioConfigReader.parse_model","python/podio_gen/podio_config_reader.py")])
p("P05","Code generation is deterministic and embeds the definition it came from",
 "Generating code twice from the same definition gives identical files, independent of hash seeds and of what was generated before, and a second run rewrites no file. The definition embedded in the generated code reads back as the same datamodel, with the same relation and vector member names.",
 ["inputs","configurations"],"all valid datamodel definitions and generator options",
 "The build runs the generator once per model with one hash seed and does not compare its output with anything.",
 ["python/podio_gen/generator_base.py","python/podio_gen/cpp_generator.py","python/podio_gen/generator_utils.py","python/templates/DatamodelDefinition.h.jinja2"],
 [("write_file_if_changed","python/podio_gen/generator_base.py"),("_write_edm_def_file","python/podio_gen/cpp_generator.py"),("DataModelJSONEncoder","python/podio_gen/generator_utils.py")])
p("P06","Files written by a backend are read back identically by the same backend",
 "A Frame written to a file with any of the supported backends and read back contains the same collections with the same IDs, contents, relations, subset references and parameters.",
 ["inputs","histories"],"all Frames and all backends (ROOT TTree, RNTuple, SIO, Arrow)",
 "The backends' libraries are not installed here and no test reads or writes a file.",
 ["src/ROOTWriter.cc","src/ROOTReader.cc","src/SIOWriter.cc","src/SIOReader.cc","src/RNTupleWriter.cc","src/RNTupleReader.cc"],
 [("writers and readers","src/ROOTWriter.cc")])
p("P07","Several threads may read from and write to one Frame at the same time",
 "For every interleaving of concurrent gets and puts on one Frame, each get returns a completely prepared collection with all its references resolved or reports it as not available, and no interleaving deadlocks or unpacks a collection twice.",
 ["schedules"],"all interleavings of any number of threads calling get and put on one Frame",
 "No test runs two threads; the behaviour between unpacking, publishing and resolving references depends on the interleaving.",
 ["include/podio/Frame.h"],
 [("m_mapMtx and m_dataMtx","include/podio/Frame.h")])
import sys
ids=set()
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title'])); assert x['id'] not in ids; ids.add(x['id'])
        assert x['statement'].count('. ')<=2,x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
