import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
ENT="inc/Tecs_entity.hh";LOCK="inc/Tecs_lock.hh";TX="inc/Tecs_transaction.hh";ST="inc/Tecs_storage.hh";VIEW="inc/Tecs_entity_view.hh";OBS="inc/Tecs_observer.hh";PERM="inc/Tecs_permissions.hh";TR="inc/Tecs_tracing.hh";ECS="inc/Tecs.hh"
p("C01","Inside a transaction every query reflects its own changes",
 "Through any lock of a transaction, existence checks, component presence, current component values and entity lists reflect exactly the state committed when the transaction started plus the changes made so far in it, for every sequence of create, destroy, set, get, unset and list operations. Getting a component for writing where it is missing (with add/remove rights) adds a default-constructed one; getting it for reading never adds or changes anything.",
 ["inputs","histories"],"every sequence of entity and component operations, in every kind of transaction, through the original lock or any lock derived from it",
 "tests.cpp checks a handful of fixed sequences on mostly fresh entities; the guarantee quantifies over all operation orders, component combinations and lock conversions.",
 [ENT,LOCK],[("Entity::Exists/Has/Get/Set/Unset/Destroy choose the write or read copy by runtime permission bits",ENT),("Lock::NewEntity, Lock::Has/Get/Set/Unset",LOCK)],
 [("metadata.writeComponents","per-entity bitset seen by add/remove transactions",ECS),("storage.writeComponents","values being written",ST)],["Entity::Has","Entity::Get","Lock::EntitiesWith","Lock::Entities"])
p("C02","A commit publishes exactly the changes that were made",
 "When a transaction ends, every later transaction of any kind, reading or writing, starts from exactly the state the ended transaction saw last: no change is lost, none is invented, and nothing overwritten or removed earlier comes back, whatever the history of earlier transactions and however full or sparse the world is. A transaction that changed nothing leaves everything as it was.",
 ["histories","inputs"],"every history of transactions with arbitrary permission sets, touched subsets, entity counts and component densities",
 "The double-buffered storage goes wrong only for particular alternations of add/remove, dense writes and sparse writes; tests run one fixed history in which nearly every entity has nearly every component.",
 [TX,ST,LOCK],[("swap of read and write copies, then copying back in bulk or sparsely",TX+" Transaction::~Transaction"),("write-accessed flags decide which components commit",TX+" SetAccessFlag")],
 [("readComponents/writeComponents","the two copies of each component",ST),("writeAccessedFlags","what this transaction touched",TX)],["any transaction started after the commit"])
p("C03","Previous-state queries always show the start of the transaction",
 "During a transaction, the previous-state queries (Existed, Had, GetPrevious, PreviousEntities, PreviousEntitiesWith) and everything read through a read-only subset of its lock report the state committed when the transaction started, no matter what the transaction has created, changed or removed since. They report components and entities that did not exist then as absent.",
 ["inputs","histories"],"every operation sequence before the query, every kind of transaction, entities and global components",
 "Tests query previous state for single modifications only; copy selection depends on the combination of permissions, operations and allocation growth.",
 [ENT,LOCK],[("Existed/Had/GetPrevious read the read copy",ENT),("ReadOnlySubset drops the runtime write bits",LOCK)],None,["Entity::GetPrevious","Lock::ReadOnlySubset"])
p("C04","Entity handles are unique and never come back to life",
 "Each newly created entity gets a non-null handle different from every handle created before in that instance, and it starts with no components. Once an entity is destroyed its handle never again denotes an existing entity, even after its index has been reused as often as the generation type can count.",
 ["histories"],"every history of creations and destructions over any number of transactions, including entities created and destroyed in the same transaction and long reuse of one index",
 "Tests reuse an index three times at most and only in index order.",
 [LOCK,ENT,TX],[("free list rebuilt with generation + 1",TX+" PreCommitAddRemoveMetadata"),("NewEntity pops the free list or grows storage",LOCK)],
 [("freeEntities","handles available for reuse",ECS),("EntityMetadata::generation","generation of the index",ECS)],["Lock::NewEntity","Entity::Exists","Entity::Has"])
p("C05","Entity lists hold exactly the matching entities and stay stable",
 "Ignoring null entries, each entity list (all entities, or those with a component; current or previous) contains every matching entity exactly once and nothing else. A list obtained in a transaction keeps its size and order while entities are added or removed in that transaction; entries of entities that stop matching become null and additions appear only in lists obtained later.",
 ["inputs","histories"],"every sequence of additions and removals before and during iteration, in every kind of transaction, up to several storage growths",
 "Tests check two fixed iteration patterns; list maintenance depends on the position of every removed and re-added entity.",
 [LOCK,ENT,TX,VIEW],[("valid-entity lists and index back references",ENT+" Get/Set/Destroy"),("lists rebuilt before commit",TX+" PreCommitAddRemove")],
 [("writeValidEntities, validEntityIndexes","list and positions",ST)],["Lock::Entities","Lock::EntitiesWith","Lock::PreviousEntities","Lock::PreviousEntitiesWith"])
p("C06","Invalid accesses are rejected by an exception and change nothing",
 "With runtime checks on, getting, setting, unsetting or destroying through a null, stale, foreign or never-issued handle, or reading or writing a component that is missing (without the right to add it), throws std::runtime_error. A rejected operation leaves all observable state as it was, and the transaction and the instance stay fully usable.",
 ["inputs","histories"],"every operation with every kind of invalid handle or missing component, at any point of any history",
 "Tests try only the null handle on six operations.",
 [ENT,LOCK],[("existence, generation and presence checks",ENT)],None,["exceptions from Entity and Lock operations"])
p("C07","Observers receive exactly the net changes of every commit",
 "For every commit after it started watching, an observer receives one ADDED event per entity (or component) that exists after but not before that commit and one REMOVED event per one that existed before but not after, and no other events. Events arrive in commit order and carry the right entity; component events carry the value as committed (ADDED) or as it was before the transaction (REMOVED).",
 ["histories"],"every history of transactions, including changes that cancel out within one transaction, index reuse and value changes",
 "Tests observe one component type over a few bulk patterns in index order.",
 [TX,OBS,ECS],[("old/new metadata comparison",TX+" PreCommitAddRemove*"),("event queues appended on commit",ECS+" ObserverList::Commit")],
 [("writeQueue","events of the committing transaction",ECS)],["Observer::Poll"])
p("C08","Observers are independent and last from watch to stop",
 "Every observer has its own complete stream: polling or stopping one never affects what another receives, for any number of observers of any event types. An observer gets the events of the transaction in which it was created and of all later ones until it is stopped or its instance is destroyed; after that it tests false and polling returns nothing.",
 ["histories"],"every interleaving of watch, stop, poll and committing transactions for many observers",
 "Tests use one observer per type, polled twice and stopped once.",
 [OBS,LOCK,ECS],[("Watch/StopWatching edit the observer list",LOCK),("weak queue reference",OBS)],None,["Observer::Poll","Observer::Stop","Observer::operator bool"])
p("C09","Global components behave like one optional transactional value",
 "A global component is a single optional value per instance: presence, current value, previous value, adding, changing and removing follow the same rules as a component of an entity, and a commit publishes its presence and its value together. It is unaffected by entity operations and does not affect them.",
 ["histories","inputs"],"every history mixing operations on several global components with entity operations, in every kind of transaction",
 "Tests exercise one global component in six fixed steps.",
 [LOCK,TX,ECS],[("globalReadMetadata/globalWriteMetadata",ECS),("Lock::Has/Had/Get/GetPrevious/Set/Unset",LOCK)],None,["Lock::Has","Lock::Get","Lock::GetPrevious"])
p("C10","Concurrent transactions see only whole commits and a fixed snapshot",
 "For every schedule, what a transaction reads (of the components it has rights for, and of the entity set) is the state after some whole set of commits: of each other transaction it sees all changes or none, never uncommitted ones, and all of those that ended before it started. What it sees does not change while it is active, except by its own writes.",
 ["schedules","histories"],"every interleaving of any number of threads running transactions with any permissions",
 "Tests run a few timed scenarios with sleeps; the interleavings of the commit phases are not controlled.",
 [TX,ST],[("all commit locks are taken before any copy is swapped",TX+" ~Transaction"),("reader count versus commit lock",ST)],
 [("readers, writer","lock words",ST)],["values and entity lists read by concurrent transactions"])
p("C11","Concurrent writers never lose updates",
 "Transactions with write access to the same component, or with add/remove rights, exclude each other: for every schedule each of them starts from the result of the one before, so read-modify-write updates made by concurrent threads are all preserved in the final state.",
 ["schedules","histories"],"every interleaving of writing and add/remove transactions of any number of threads",
 "Tests have at most two concurrent writers of different components.",
 [ST,TX],[("WriteLock compare-exchange",ST),("lock acquisition with rollback",TX)],None,["final state after all threads joined"])
p("C12","Every schedule of finite transactions runs to completion",
 "Threads that each run finitely many transactions, one after the other (not nested), with any mix of permissions, always all finish: no schedule leads to deadlock or a lost wake-up, no fair schedule to endless retry, and no transaction start or end throws. This holds with and without C++20 atomic waiting, whatever the spin limit.",
 ["schedules","configurations"],"every permission mix and every interleaving of lock attempts, rollbacks, commits and wake-ups",
 "One timed test for one permission pair; a lost wake-up or circular wait needs an exact interleaving.",
 [ST,TX],[("block only while holding no lock, otherwise roll back",TX),("notify after every unlock",ST)],None,["all threads finish"])
p("C13","Transactions wait only where documented",
 "Starting a read transaction never waits for an active writer that is not yet committing. Ending a transaction waits only for active transactions that hold access to a component it accessed for writing (or for any active transaction if it added or removed entities or components); ending one that only read, or touched nothing, never waits. Starting waits only for a conflicting writer or commit of something it requested.",
 ["schedules","inputs"],"every combination of permissions held by other active transactions, permissions requested and components touched",
 "Tests cover four fixed combinations.",
 [TX,ST],[("read lock fails only during commit",ST),("untouched components are unlocked before commit",TX)],None,["whether a start or end blocks while others stay active"])
p("C14","A waiting commit is not overtaken by new readers",
 "Once a transaction is ending and waits for readers of a component it changed, no new transaction gets read access to that component before the commit is done; active readers keep access and can finish, and when the last one has, the commit completes. After it, the waiting readers proceed and see the new state.",
 ["schedules"],"every set of existing and newly arriving readers, and every schedule",
 "One timed test with sleeping readers.",
 [ST],[("writer = COMMIT blocks new readers",ST+" CommitLock/ReadLock")],None,["order of starts relative to the commit"])
p("C15","Programs using the API correctly have no data races",
 "Threads that access an instance only through transactions they started, with the rights the API asks for, never cause a data race or other memory error inside the library, for any schedule. This includes listing entities by a component without holding read rights to its values, observers, global components and storage growth during add/remove.",
 ["schedules","histories"],"every interleaving and every API operation allowed by the static permissions, under the C++ memory model",
 "Tests never run under a race detector, and races occur only in certain schedules of commit phases.",
 [ST,TX,ENT,LOCK],[("acquire/release ordering on the lock words",ST),("unlock order at commit",TX)],None,["thread sanitizer"])
p("C16","Lock conversions never grant rights the transaction does not hold",
 "Converting a lock, statically or through a dynamic lock, never yields a permission that the underlying transaction did not acquire, and a lock derived from a read-only subset never yields write or add/remove rights. Conversions to any subset of the permissions the source lock statically has always succeed, for any number of component types.",
 ["inputs","configurations"],"every combination of transaction permissions, dynamic-lock permissions and requested permissions, including worlds with more than 63 components",
 "Tests try a handful of combinations, none with add/remove through a dynamic lock.",
 [LOCK,PERM],[("is_lock_subset/has_permissions",LOCK),("DynamicLock::TryLock bitset comparison",LOCK)],None,["DynamicLock::TryLock","Lock::has_permissions","Lock::Subset"])
p("C17","Nested transactions are detected exactly, transaction ids are unique",
 "Starting a transaction on an instance throws exactly when the same thread already has an active transaction on that instance, or already has the maximum number of active transactions; a failed start has no other effect. As soon as a transaction has ended its thread can start another on that instance. Transaction ids are unique across threads and increase within a thread.",
 ["histories","schedules","fault_sequences"],"every order of starting and ending transactions on many instances in several threads, up to and beyond the per-thread limit",
 "Tests try one nested pair and one pair across two instances.",
 [TX,"src/Tecs.cc"],[("thread-local list of active instances",TX+" BaseTransaction")],[("activeTransactions","instances with an active transaction",TX)],["Lock constructor exceptions","Lock::GetTransactionId"])
p("C18","A transaction lives until its last lock copy and commits once",
 "A transaction stays active, its changes invisible to others and its rights held, until the last copy of any of its locks (including subsets, dynamic and read-only ones) is gone, whatever order and way they go, including unwinding by an exception. At that moment, and only then, all changes are committed exactly once.",
 ["histories","schedules"],"every pattern of copying, converting, moving and releasing locks, including release by exception",
 "One test with a single extra copy.",
 [LOCK,TX],[("shared ownership of the transaction by its locks",LOCK)],None,["visibility from another thread","Lock::UseCount"])
p("C19","Component values are released when no longer part of the state",
 "After a commit, a component value that was removed or replaced, or belonged to a destroyed entity, is kept alive by nothing but undelivered observer events; a value removed in the transaction that added it is released at once. Over the life of an instance every value that was constructed is destroyed exactly once.",
 ["histories"],"every history of sets, removals, destructions and observers with non-trivial component types",
 "Tests check one global component's lifetime; the second copy of the data can keep stale values alive without changing any query.",
 [LOCK,TX,OBS],[("removed values are reset",LOCK+" RemoveComponents"),("write copy overwritten after commit",TX)],None,["lifetime of component values"])
p("C20","Entity views behave like immutable sequences",
 "An entity view over any range behaves like the corresponding immutable sequence: size, emptiness, indexing, forward and reverse iteration, iterator arithmetic and comparison, and nested subviews with any offset and count (default: to the end) all agree. With runtime checks on, out-of-range access or subview offsets throw instead of reading outside the range.",
 ["inputs"],"every underlying list, range, nesting of subviews, index and iterator expression",
 "Tests only use forward loops and operator[] on whole lists.",
 [VIEW],[("start/end offsets and bounds checks",VIEW)],None,["EntityView and its iterators"])
p("C21","Entity ids pack, order, hash and print consistently",
 "For every index, generation and instance identifier, under every supported choice of id types, packing into an entity and back (parts, instance identifier, 64-bit integer) loses nothing, equality and ordering form a consistent strict total order, and equal entities hash alike. Printing distinguishes different non-null entities, and an entity is null exactly when its generation is zero.",
 ["inputs","configurations"],"all values of the id fields and all supported id type configurations",
 "Tests construct a few small ids with one configuration.",
 [ENT],[("GenerationWithIdentifier and friends, comparison operators, std::hash, to_string",ENT)],None,["Tecs::Entity"])
p("C22","Every build configuration behaves the same for valid programs",
 "For programs that use only valid operations, every documented build configuration (runtime checks on or off, header-only, performance tracing, C++17 or C++20, any allocation batch size and supported id types) gives the same observable results as the default one.",
 ["configurations","histories"],"every combination of documented build options and every history of valid operations",
 "Tests build two configurations with the same fixed sequence; header-only, C++17, other batch sizes and id types are never built.",
 [ECS,ENT,LOCK,TX,ST,"CMakeLists.txt"],[("preprocessor options",ECS)],None,["results of the same operation history in each build"])
p("C23","Performance traces are a faithful record of locking",
 "With tracing compiled in, a trace taken over complete transactions contains, for every transaction, its start and end and, for every lock, events that form a valid history: shared reads, exclusive writes, commits only by the writer while no reader is active, and every acquisition released by its own thread. Traces keep the earliest events up to the capacity and never exceed it, and the CSV output contains exactly the recorded events.",
 ["schedules","histories"],"every concurrent history traced, any number of events relative to the capacity",
 "The benchmark records a trace but nothing checks it.",
 [TR,ST,TX,ECS],[("TraceInfo::Trace",TR),("trace calls in the lock functions",ST),("PerformanceTrace::SaveToCSV",TR)],None,["ECS::StopTrace","PerformanceTrace::SaveToCSV"])
p("C24","Instances are isolated from each other",
 "Operations on one instance never change what is observed on another, even when a thread interleaves or nests transactions on several instances. A handle of one instance never denotes an entity of another existing instance (for up to 255 instances), and observers report only their own instance.",
 ["histories"],"every interleaving of histories on several instances, with any number of instances created before",
 "Tests create a second instance once and never store anything in it.",
 [ECS,ENT,TX],[("instance identifier in the generation",ENT)],None,["Entity::Exists on a lock of another instance"])
p("C25","Running out of entity indexes is reported, never aliased",
 "When no further entity index can be represented, creating an entity throws std::runtime_error; handles issued before stay valid and distinct, the values of all entities are unaffected, and after entities are destroyed creation works again. Growth up to the limit, in any number of steps and across any transactions, keeps all earlier data.",
 ["inputs","histories","configurations"],"every index type, batch size and history that reaches the capacity",
 "Tests stop at 20000 entities of a 32-bit index space.",
 [LOCK],[("index overflow check before growing",LOCK+" NewEntity")],None,["Lock::NewEntity"])
p("C26","Operations compile exactly with the permissions they need",
 "An operation on an entity, a global component, an entity list, an observer or a lock compiles exactly if the permissions of the lock it is given include those the documentation requires for it, however the permissions are spelled and however the lock was obtained. What reading returns cannot be modified without write permission, and a previous value or an entity list never. Components or events that are not part of the instance's type, global components used through an entity (and the reverse), and locks of another instance type never compile.",
 ["inputs","configurations"],"every combination of operation, component type and permission list (nested lock types and duplicates included), in every build configuration",
 "A test that compiles can't show what must not compile; no test tries to compile anything invalid, and only few permission lists occur at all.",
 [ENT,LOCK,PERM,OBS,VIEW],[("static assertions of each operation",ENT+", "+LOCK),("is_read_allowed, is_write_allowed, is_add_remove_allowed",PERM),("constness of what Get and the lists return",ENT+", "+LOCK+", "+VIEW)],None,["whether a program compiles"])
p("C27","Components of any copyable type keep the value semantics of their type",
 "For every copyable, default-constructible component type: a component set from arguments has the value that constructing the type from those arguments gives, and variables passed as arguments are left unchanged; if that construction throws, a component that was there keeps its value; a component added without a value is a default-constructed object, also where the entity or an earlier component used the same slot; and through growth, commits, copies into events, and setting from other components or from itself, every component keeps its own value, its required alignment and a stable identity of its own, as a variable of that type would.",
 ["inputs","histories"],"every component type and every history of sets, changes, removals and commits",
 "Tests use a handful of simple structs, so a copy replaced by a move, a slot that is not reset or braces instead of parentheses go unnoticed.",
 [ENT,LOCK,TX,ST,OBS],[("Set and Get",ENT+", "+LOCK),("copies on commit",TX),("component vectors",ST)],None,["values read through Get and GetPrevious","component of a polled event"])
json_lines="\n".join(json.dumps(x) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80
print(len(P))
