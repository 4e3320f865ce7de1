"""The properties.  One entry per property; gen/make.py writes properties.jsonl and
MANIFEST.json from this list (claimed = a check exists in checks/)."""

CL = "client/rust/src/"
PR = CL + "contract/properties/"

def P(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, level="proof", na=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, technique=technique, note=note, level=level, na=na, state=state or [])

TRUST = ("Exhaustive over the paths of the analysed MIR; assumes rustc's MIR, the semantics given to std and to the container "
         "crates (generational_arena, typemap, crossbeam), and the interpreter in /verif/sa.")

PROPS = [
P("C01", "A handle yields only the entry it was issued for, or an error",
  "Looking up an object, contract, state or channel by a handle either returns exactly the entry that handle was issued for in that "
  "baseline, or reports an error; a handle whose entry was removed (even if its slot was reused) or that is of another type never "
  "yields other data.  Lookups never modify the store.",
  ["inputs", "histories"], "every handle value, every history of insertions and removals, every property type",
  "A test inserts and removes a few entries of one or two types; stale handles after slot reuse and every type's accessor are not sampled.",
  ["crates/datastructures/arena/src/lib.rs", CL + "baseline.rs", PR + "states/handle.rs", PR + "states/dyn_handle.rs", PR + "channels/handle.rs", PR + "channels/dyn_handle.rs"],
  [("generational arena behind a typed handle", "crates/datastructures/arena/src/lib.rs"), ("one arena per property type", PR + "states/mod.rs")],
  "path-sensitive provenance dataflow on MIR (abstract interpretation)",
  TRUST),
P("C02", "Binding an id to an object gives that object's field, or an error",
  "Binding a state or channel id to an object yields the handle stored in that object's own field for the id exactly when the object "
  "exists, the id belongs to the object's contract, and the field index is within the object; every other combination is refused, "
  "and binding never changes anything.",
  ["inputs", "histories"], "every object, every id value, every contract registration history (including re-registered contracts)",
  "Tests bind a handful of valid ids; ids of other contracts, of older registrations or out of range are not tried.",
  [CL + "baseline.rs", CL + "object.rs", PR + "states/id.rs", PR + "channels/mod.rs"],
  [("contract comparison and bounds check in bind", CL + "object.rs")],
  "path-sensitive provenance dataflow on MIR (abstract interpretation)",
  TRUST),
P("C03", "Object creation is all or nothing",
  "Creating an object either fails and leaves the store exactly as it was, or adds exactly one object which carries its contract's "
  "handle, and is recorded once, under its own handle, with that contract.  The returned handle is the new object's.",
  ["inputs", "histories"], "every contract, every sequence of property values handed in, every prior history of the baseline",
  "Existing tests create one object with matching properties; failing creations are never followed by an inspection of the store.",
  [CL + "baseline.rs", CL + "contract/mod.rs", CL + "object.rs"],
  [("all checks precede the first insertion", CL + "baseline.rs")],
  "effect and provenance analysis on MIR (abstract interpretation)",
  TRUST),
P("C04", "An object's fields match its contract's declared property types",
  "Objects are created only from property lists whose length and per-position types equal the contract's declaration; a created object "
  "holds, in declaration order, one entry per declared state and one per declared channel, each stored in the table of its own type with "
  "the value handed in.",
  ["inputs"], "every contract declaration and every list of property values, including too short, too long and wrongly typed ones",
  "Tests use matching lists only; per-position type agreement over all types cannot be sampled.",
  [CL + "baseline.rs", PR + "dynamic/property.rs", PR + "channels/dyn_channel/mod.rs"],
  [("positional type check before creation", CL + "baseline.rs")],
  "effect and provenance analysis on MIR (abstract interpretation)",
  TRUST),
P("C05", "Object removal removes everything the object owned, and nothing else",
  "Removing an object succeeds only for a live object of the named contract type; it then removes the object, its record with its "
  "contract, and every state and channel bound to it, and nothing else.  A refused removal changes nothing.",
  ["inputs", "histories"], "every history of creations and removals, every contract and every object handle",
  "No test inspects the store after a removal; a leaked field or a dangling record shows only in later histories.",
  [CL + "baseline.rs", CL + "contract/mod.rs", PR + "states/mod.rs", PR + "channels/mod.rs"],
  [("removal walks every id of the contract", CL + "baseline.rs")],
  "effect and typestate analysis on MIR (abstract interpretation)",
  TRUST + "  Assumes the object was created by this library's creation path (C03/C04): its tables are as long as its contract's declaration."),
P("C06", "Contracts are registered once and unregistered with all their objects",
  "Registering a contract fails without effect when a contract with the same identifier is already registered and otherwise adds exactly "
  "that contract with no objects.  Unregistering fails without effect for an unknown handle or a different contract type, and otherwise "
  "removes every object created under it and then the contract itself.",
  ["inputs", "histories"], "every history of registrations, creations, removals and unregistrations",
  "Tests register one contract once; duplicates, stale handles and foreign types after several registrations are not sampled.",
  [CL + "baseline.rs", CL + "contract/mod.rs"],
  [("duplicate check and id comparison", CL + "baseline.rs")],
  "effect and provenance analysis on MIR (abstract interpretation)",
  TRUST),
P("C07", "A realm's main and fork baselines are separate, each under its own kind",
  "A realm holds two distinct baselines; asking for one kind returns the same baseline for reading and for writing, and that baseline "
  "reports the kind asked for.  Applying or reversing actions consults and changes only the fork.",
  ["inputs", "histories"], "both kinds, every action, every history",
  "A test that looks at one baseline cannot see writes that land in the other one.",
  [CL + "realm.rs", CL + "baseline.rs", CL + "engine.rs"],
  [("kind to field mapping", CL + "realm.rs")],
  "path-sensitive provenance dataflow on MIR (abstract interpretation)",
  TRUST),
P("C08", "A collaction is approved or rejected as a whole",
  "A dequeued collaction is approved exactly when all its actions succeed in order; the first failing action stops it, rejects it, and "
  "undoes exactly the actions that had succeeded, newest first.  An assertion succeeds exactly when its handle is live and the stored "
  "value equals the asserted one, and the collaction handed back is the one that was submitted.",
  ["inputs", "fault_sequences", "histories"], "every collaction (any length), every position and kind of failing action",
  "Tests submit no failing collaction; the failing position and the order of undoing range over all lengths.",
  [CL + "engine.rs", CL + "action/mod.rs", CL + "action/property.rs"],
  [("apply loop with a list of undo actions", CL + "engine.rs")],
  "two-layer abstract interpretation of the engine with action effects as typestate events",
  TRUST + "  State writes are unimplemented in the tree (known finding), so undoing is checked as a protocol."),
P("C09", "One collaction per call; an empty queue changes nothing; ticks only add time",
  "Each call that applies a collaction takes exactly one from the queue, in arrival order, waiting no longer than the caller allows; when "
  "none is there it reports so and has no effect.  Ticking only advances the realm's time, by exactly the given amount, saturating.",
  ["schedules", "inputs", "histories"], "every interleaving of producers with the engine, every timeout, every tick amount",
  "Thread interleavings and timeouts cannot be enumerated by a unit test; extreme tick amounts are not sampled.",
  [CL + "engine.rs", CL + "realm.rs", CL + "time/mod.rs"],
  [("single receive per call; bounded or unbounded channel", CL + "engine.rs")],
  "path-sensitive effect analysis on MIR (abstract interpretation)",
  TRUST),
P("C10", "Shared access never changes a realm, and realms can be shared between threads",
  "Reading a realm, baseline, object, contract, state, channel, handle or action through a shared reference never changes it, whatever "
  "thread reads it and however often: the store has no hidden mutable state, the library keeps no mutable globals, and every type of "
  "the store and of the actions on it can be sent to and shared between threads.",
  ["schedules", "histories"], "every reading function, every interleaving of readers",
  "Data races and hidden caches depend on interleavings; a test on one thread sees nothing.",
  [CL + "realm.rs", CL + "baseline.rs", CL + "object.rs", "crates/datastructures/arena/src/lib.rs"],
  [("thread-safe type maps; no cells, no unsafe", PR + "states/mod.rs")],
  "type-level effect analysis (rustc trait solver, type closure, unsafe/static census)",
  "Decided on types by rustc's trait solver and a closure over field types; trusts safer_ffi's generated unsafe code and the dependencies' own."),
P("C11", "Dynamic values carry exactly the type and content they were made from",
  "Wrapping a value, reference, state, channel, handle or id of any property type in its dynamic form and asking for its type gives that "
  "type; unwrapping succeeds exactly for the type that was put in and returns the same content; borrowed views and copies keep type and "
  "content; an id made from a dynamic type has that type, position and contract.",
  ["inputs"], "all 28 property types, all 30 dynamic enums, every conversion between them, every value",
  "There are more than 500 generated conversions and queries; tests sample two types, and one swapped macro arm breaks only one type.",
  [PR + "dynamic/__macro.rs", PR + "dynamic/property.rs", PR + "dynamic/from_impls.rs", PR + "dynamic/borrow_impls.rs", PR + "traits.rs",
   PR + "states/dyn_handle.rs", PR + "states/dyn_state.rs", PR + "channels/dyn_channel/mod.rs", PR + "channels/dyn_handle.rs"],
  [("macro-generated enums over the 14 primitives", PR + "dynamic/__macro.rs")],
  "exhaustive variant-mapping analysis on MIR (abstract interpretation, families unfolded)",
  TRUST),
P("C12", "Equality means same type and same content",
  "Two dynamic values, references, handles, ids, states, keyframes, baseline kinds or arena indexes are equal exactly when they are of the same type and hold equal "
  "content (for ids and indexes: every identifying part), and a dynamic value equals a plain one exactly when it is of that plain type "
  "and holds it, in either order; hashing and ordering of indexes agree with equality; comparing panics nowhere and changes nothing.",
  ["inputs"], "all pairs of variants and contents, for every equality operator (more than 150)",
  "Tests compare a few equal values; a wrong arm, a forgotten field or a missing variant shows only on one type or on ids that differ in one part.",
  [PR + "dynamic/__macro.rs", PR + "dynamic/eq_impls.rs", PR + "dynamic/primitive.rs", PR + "dynamic/vec.rs", PR + "states/id.rs",
   PR + "channels/mod.rs", "crates/datastructures/arena/src/lib.rs"],
  [("generated equality of dynamic values; derived equality of ids", PR + "dynamic/eq_impls.rs")],
  "relational path analysis of comparison operators on MIR (abstract interpretation, families unfolded)",
  TRUST),
P("C13", "Declared contract fields keep their position, type and name everywhere",
  "Every struct declared as a contract's states or channels yields, for its i-th field, an id with position i and the contract's handle, an accessor "
  "of the field's name that returns this id, and an i-th entry of the field's type and name in each of the contract's listings, which have exactly one "
  "entry per field.  A contract made from a handle reports that handle, and all its ids carry it.",
  ["programs"], "every struct that can be declared: any number, order, naming and typing of fields, for states and for channels",
  "The macro test compares the runtime types of two small structs; order agreement between ids, types, names and accessors for other shapes is never compared.",
  ["client/contract_macro/src/lib.rs", CL + "contract/mod.rs", PR + "states/iter.rs", PR + "channels/mod.rs"],
  [("states/channels attribute macros", "client/contract_macro/src/lib.rs")],
  "interpretation of the macro-expanded code on MIR, over every expansion in the workspace and a family of witness declarations",
  TRUST + "  Declarations other than the instances are covered by the uniformity of the macros only."),
P("C14", "A contract's ids are enumerated in order, each once, with their types",
  "Iterating a contract's state or channel ids yields the ids of positions 0, 1, … up to the number of declared types, each once, with the contract's handle "
  "and the type declared at its position; skipping ahead and remaining counts agree with stepping, also past the end and for any step.  Looking an id up by "
  "position yields exactly the id that iteration yields there, and nothing beyond the end.",
  ["inputs", "histories"], "every contract, every interleaving of next and skip calls, every step and position up to the largest integer",
  "No test iterates ids; the skip arithmetic matters only in specific next/nth sequences and at the end.",
  [PR + "mod.rs", PR + "states/iter.rs", PR + "channels/mod.rs", CL + "contract/mod.rs"],
  [("prop_iter! iterators", PR + "mod.rs"), ("state_id / chan_id", CL + "contract/mod.rs")],
  "path-sensitive dataflow on MIR with linear integer expressions (abstract interpretation)",
  TRUST),
P("C15", "Time arithmetic saturates, rounds down, and is exact where it can be",
  "Ticks add and subtract by saturating at the i32 range; scaling ticks gives ticks * numerator / 1024 computed exactly, rounded toward "
  "minus infinity, and saturated to i32; the assigning operators do the same as the plain ones; a warp maps a time to "
  "(time - offset) * scale.  The default time is 0 and the default scale and warp are the identity; conversions to milliseconds, "
  "whole seconds (truncating) and floating-point seconds or factors, and comparisons, are those of the stored number.  None panics.",
  ["inputs"], "every i32 tick count, offset and scale numerator",
  "The one test applies three warps whose results are whole and in range; overflow, negative times with fractional scales and the assigning forms are not tried.",
  [CL + "time/mod.rs"],
  [("ticks, scale and warp arithmetic", CL + "time/mod.rs")],
  "exact integer normalisation with interval analysis over interpreted MIR paths",
  TRUST),
P("C16", "A channel holds exactly its keyframes, in order of time",
  "A channel made from an iterator of keyframes contains each of them exactly once and nothing else, ordered by ascending time (f64 total order, so NaN "
  "and infinite times have a place too); making one never panics.  A keyframe keeps the value and the time it was made with, and a channel's accessors give "
  "its own list.",
  ["inputs"], "every iterator of keyframes: any number, order, and times including negative, equal, infinite and NaN",
  "No test builds a channel from unsorted keyframes; special times and every length cannot be sampled.",
  [PR + "channels/channel.rs"],
  [("sorting constructor", PR + "channels/channel.rs")],
  "dataflow on MIR (abstract interpretation): one-in-one-out obligations per element, and interpretation of the comparison",
  TRUST),
P("C17", "An action reports its own kind and survives conversion unchanged",
  "The kind an action reports is that of its family and variant (state or channel; write or assert), however deeply it is wrapped.  Wrapping an action in a "
  "more general action type and unwrapping it again gives the same action; unwrapping to another family is refused.  A collaction's accessors give its own list.",
  ["inputs"], "every action of every family and variant, at every wrapping level",
  "No test asks an action for its kind or converts one.",
  [CL + "action/mod.rs", CL + "action/property.rs"],
  [("IAction::kind with enum_dispatch", CL + "action/mod.rs")],
  "interpretation of MIR over all enum leaves",
  TRUST),
P("C18", "C API results can be released, are not leaked, and are named for their type",
  "Every exported C function has one symbol, named after the module and the type it is about.  For every type that an exported function "
  "returns owned (boxed or as a vector) there is exactly one exported T__drop that takes it and frees it; no exported function, nor anything of "
  "the workspace it calls, leaks or forgets a value it owns.",
  ["inputs", "histories"], "all exported functions, and every sequence of calls a foreign caller makes",
  "Leaks and double frees across the C boundary do not show in the results the Rust tests compare; no test calls the exported symbols.",
  [PR + "channels/channel.rs", PR + "channels/handle.rs", PR + "states/mod.rs", PR + "states/id.rs", PR + "states/handle.rs", CL + "baseline.rs",
   "crates/rsharp/rust/src/string.rs", "crates/rsharp/rust/src/rvec.rs", "crates/rsharp/rust/src/rbox.rs"],
  [("remangle and ffi_export wrappers", "crates/rsharp/rust/macro/src/remangle.rs"), ("release functions", PR + "channels/channel.rs")],
  "effect and ownership analysis over the typed exports and their MIR call graph",
  TRUST),
P("C19", "Every exported C function does what the Rust operation of its name does",
  "Each exported C function does, on the arguments it is given and on nothing else, what its name and type say: constructors box exactly the given value "
  "and time; accessors give the value, time, id, name, version or list of that very object; setters write the given value there and change nothing else; lookups and "
  "bindings yield what Rust's Baseline yields for the same handle or id, in the table of the named type, and panic only where Rust reports an error; "
  "vectors push, read and write at the given position, refusing positions out of range; a channel keeps exactly the given keyframes; the contract functions "
  "register, unregister, create and remove on the given baseline, passing every state argument in order with its declared type; text is accepted unchanged if "
  "valid and refused otherwise.",
  ["inputs", "histories"], "all 448 exported functions with every argument; every one of the 14 value types",
  "No Rust test calls an exported function; one wrong type or argument among hundreds of generated functions shows only in a foreign program that uses it.",
  [CL + "baseline.rs", PR + "channels/channel.rs", PR + "channels/mod.rs", PR + "states/mod.rs", PR + "states/id.rs", CL + "contract/mod.rs",
   "crates/rsharp/rust/src/rvec.rs", "crates/rsharp/rust/src/string.rs", "crates/rsharp/rust/src/rbox.rs",
   "client/contract_example/rust/src/lib.rs", "client/contract_example/rust/src/states.rs", "demos/unity_states/rust/src/lib.rs"],
  [("monomorphized wrappers", CL + "baseline.rs"), ("vector functions", "crates/rsharp/rust/src/rvec.rs"), ("contract functions", "client/contract_example/rust/src/lib.rs")],
  "abstract interpretation of the MIR of every export against a specification selected by its name and type",
  TRUST),
P("C20", "Arenas, realms, engines, objects and contract records keep what they were given",
  "An arena returns under each index exactly the value inserted there until it is removed, lists each live value once with its own index, in order and from either "
  "end, and reports its true number of values; converting between typed and untyped indices changes neither slot nor generation; a realm, engine, object and contract record give back "
  "the id, time, time warp, realm, handles and contract they were made with, a baseline lists exactly its objects, mutable accessors reach just that part, and an engine's sender and queue are the two ends of one "
  "queue of the capacity asked for.",
  ["inputs", "histories"], "every operation of the arena and of its iterators; every constructor and accessor of Realm, RealmID, Object, ContractData and Engine",
  "The arena's doc tests insert one or two values; no test builds an engine with a bounded queue or reads back what a realm was made with.",
  ["crates/datastructures/arena/src/lib.rs", CL + "realm.rs", CL + "engine.rs", CL + "object.rs", CL + "contract/mod.rs"],
  [("arena wrapper", "crates/datastructures/arena/src/lib.rs"), ("constructors and accessors", CL + "realm.rs"), ("channel ends", CL + "engine.rs")],
  "summaries of every constructor, accessor and arena operation by path-sensitive abstract interpretation of the MIR, compared with the specified provenance", TRUST),
P("C21", "The C# wrapper generators describe exactly the functions the library exports",
  "The generators list each of the fourteen value types (eleven for boxes) once and produce one class of each kind for each listed type, each rendered with its kind's template into a file "
  "named after the class; every native function a generated class calls is exported by the library for that very kind and type, with as many arguments and the "
  "matching C# types, ownership and pointer casts, and every exported function of the class is used; a filled output folder is refused unless overwriting was asked for.",
  ["inputs"], "every class the generators produce: 4 kinds for 14 types, 11 boxes, every native call in them",
  "Nothing in the build compares the generators' text with the exports: a wrong name, cast or missing type is seen only when a C# program loads the library and calls that function.",
  ["client/codegen_wrapped/src/lib.rs", "client/codegen_wrapped/src/main.rs", "client/codegen_wrapped/src/type_info.rs", "client/codegen_wrapped/src/template_keyframe.rs",
   "client/codegen_wrapped/src/template_state.rs", "client/codegen_wrapped/src/template_state_handle.rs", "client/codegen_wrapped/src/template_state_id.rs",
   "crates/rsharp/codegen/src/codegen.rs"],
  [("class data", "client/codegen_wrapped/src/template_state.rs"), ("type table", "client/codegen_wrapped/src/type_info.rs"), ("box generator", "crates/rsharp/codegen/src/codegen.rs")],
  "abstract interpretation of the generators' MIR with evaluation of the texts, static expansion of the templates, comparison with the exported symbols and their types", TRUST),
P("C22", "The circle game shows each circle where its object's states say",
  "At startup the circle game creates, for each cell (i, j) of a 10 by 10 grid, one object of its Circle contract on the engine's fork with x = 50(i - 5) and y = 50(j - 5), and one entity "
  "drawn there that carries that object's handle, the fork kind and the handles of that object's own x and y. Walking moves x and y of every fork circle by independent random steps of at "
  "most 1 and changes nothing else; drawing sets every circle's picture to exactly the x and y stored in its own baseline and changes nothing else. The app holds the engine, its sender and "
  "the contract, runs all three systems, and stops when one of them fails.",
  ["inputs", "histories"], "every world state that a system can be run on: any number of entities, either kind, any stored values",
  "The game has no test: its systems only run inside a window.",
  ["demos/circle_game/src/lib.rs", "demos/circle_game/src/circle_bundle.rs", "demos/circle_game/src/components.rs", "demos/circle_game/src/circle.rs"],
  [("set-up, walking, drawing", "demos/circle_game/src/lib.rs"), ("entity", "demos/circle_game/src/circle_bundle.rs")],
  "path-sensitive abstract interpretation of the game's systems, judged per entity; the grid by evaluating the coordinate expressions, the step by interval arithmetic", TRUST),
P("C91", "A serialized baseline reads back equal",
  "Writing a baseline to its serialized form and reading it back gives a baseline with equal contracts, objects, states and channels, and "
  "damaged input is refused with an error instead of a panic.",
  ["inputs"], "every baseline, every byte string",
  "The round-trip tests of the serializer use a few hand-made baselines (and do not build here).",
  ["client/serialize/rust/src/lib.rs", "client/serialize/rust/src/serializer/mod.rs", "client/serialize/rust/src/deserializer/new/mod.rs"],
  [("handle map and flatbuffers tables", "client/serialize/rust/src/serializer/handle_map.rs")],
  na="client/serialize/rust cannot be type-checked offline: its dependencies and the generated flatbuffers code are not in the sandbox, and the "
     "repository's own build leaves the crate out.  Without a checked program there is nothing sound to analyse; judging its text would be guessing."),
P("C92", "Tweening moves from start to end and never leaves the interval",
  "An integer tween gives the start value at progress 0, the end value at progress 1, and for growing progress values moving from the one to the other "
  "without leaving the interval or panicking, whichever is larger; a jump tween gives the start value before progress 1 and the end value from then on.",
  ["inputs"], "every pair of values of every integer type, every progress value of every float type",
  "The tests ease between -2 and 8 at a few progress values.",
  [PR + "channels/misc.rs"],
  [("IntTweenable, JumpTweenable", PR + "channels/misc.rs")],
  na="Whether a product of a generic float and a converted integer difference, truncated and added back, stays within an interval is a question about rounding over "
     "runtime values of generic types; no dataflow or type argument in reach bounds it.  (Read by hand, it fails for descending values; see DESIGN.md.)"),
P("C93", "The C# wrappers release every native object exactly once at run time",
  "Under every schedule of the garbage collector, each native object that a C# wrapper owns is dropped exactly once, and none is used after that.",
  ["schedules", "histories"], "every order of finalizers, disposals and calls",
  "C# tests need a .NET runtime and do not control the finalizer thread.",
  ["crates/rsharp/cs/src/RSharp.cs", "client/cs/src/Baseline.cs"],
  [("finalizer and Dispose", "crates/rsharp/cs/src/RSharp.cs")],
  na="It depends on the schedule of a managed runtime that is not installed, and no C# compiler or type-checker is available to build a checked program from; the part that "
     "can be read off the source, which native functions the generated classes name and with what ownership, is property C21."),
]
