# Executed by meta.py: the properties of the parts around the cache itself.
UT = "src/utils.rs"
prop("P16", "Diagnostics report what happened",
     "A doctor sees exactly one build event per successful build, naming the builder and the artifact that goes into the cache; exactly one resolve event for each time a build asks for a dependency, naming the asking and the asked builder; exactly one invalidation event naming the target for each invalidation, purge or mutable state access; exactly one clear event each time everything is cleared; and no other events.",
     ("inputs", "histories"), "every acyclic graph, every history of requests, invalidations, accessor mixes",
     "The tests compare the doctor's log of one fixed chain.", [CI, CA, "src/diagnostics/mod.rs"],
     [("Doctor hooks in build, resolve, invalidate, clear_all, clear_artifacts", CI)], [], ["calls of Doctor's methods"])
prop("P20", "Utility builders are transparent",
     "Forwarding, cloning and feigning builders answer with the artifact, or the error, of the builder they wrap; a cached answer is not built again, is gone as soon as the wrapped builder's artifact is, and removing it leaves the wrapped builder alone. A redeeming builder never fails: it answers with what the wrapped builder builds, and if that fails with the last good artifact since it was purged, or its default. A constant builder always answers with its value, a configurable one with the value last set, a functional one runs its closure on its state once per build and passes on result or error.",
     ("inputs", "histories", "fault_sequences"), "every value, every failure, every history of requests, invalidations and purges of wrapper and wrapped builder",
     "The tests build each utility once or twice on fixed values.", [UT],
     [("Builder impls of the utility builders", UT)], [], ["Cache::get on a utility builder"])
prop("P22", "The textual and graph doctors' output is well-formed",
     "The textual doctor writes exactly one complete line per event, whatever its options, apart from line breaks of the values shown. The graph doctor opens its graph once and closes it once, as the last thing it writes, whether it is dropped or dismantled, and every quoted string in it is closed on its own line, whatever text the builders and artifacts shown have. Both number artifacts consecutively within a generation, and clearing and invalidating start a new generation, so that no two builds share a number.",
     ("inputs", "histories"), "every sequence of events, every combination of options, a quote, backslash, line break or letter in the values",
     "No test reads the output of a longer sequence; invalidation lines lacked their line break, and quotes in artifact values broke the graph.", ["src/diagnostics/textual.rs", "src/diagnostics/visgraph.rs"],
     [("TextualDoc, VisgraphDoc: impl Doctor", "src/diagnostics")], [("count", "generation and sequence number", "src/diagnostics")], ["the bytes written"])
prop("P18", "Cans keep what is put into them",
     "The cans that come with daab (Rc, Arc and Box, for artifacts and for builders) hold exactly the value put in: its address does not change on the way into the can and out of it, a downcast to its type gives that very value, shared or mutable, a downcast to another type gives nothing, counts of references are kept, and a weak reference upgrades exactly while the value is alive.",
     ("inputs",), "every value of a plain, a zero-sized and an over-aligned type",
     "The tests can one value of one type; the casts through dyn Any are unsafe-free but address-based identity depends on them.", ["src/canning.rs", "src/rc.rs", "src/arc.rs", "src/boxed.rs"],
     [("impl Can, CanSized, CanStrong, CanRef, CanRefMut", "src/canning.rs")], [], ["the Can traits' methods"])
prop("P19", "The ready-made caches share, keep and drop artifacts",
     "With daab::rc, daab::arc and daab::boxed and their plain and dynamic blueprints: all blueprints of one builder have its one identity, equal each other and address the same entry, and those of different builders do not; a cached artifact is handed out itself, not a copy, or equal to the clone asked for; an artifact is built again exactly if it, or one it was built from, was removed; one still in use outlives its removal unchanged and the cache then holds no reference to it.",
     ("inputs", "histories"), "every written value and iteration order, for each removal and accessor, failed and successful builds",
     "The tests use ready-made caches on fixed chains, and never mix a builder's blueprints, failures and removals.", [CI, CA, "src/rc.rs", "src/arc.rs", "src/boxed.rs", "src/blueprint.rs", "src/canning.rs"],
     [("Blueprint::id, BlueprintDyn::from_bp, PromiseTrait impls", "src/blueprint.rs"), ("RawCache", CI)], [("artifacts", "the cached Rc, Arc or Box", CI)], ["Cache's methods on rc, arc and boxed blueprints"])
BPS = ["src/blueprint.rs", "src/canning.rs", "src/lib.rs"]
prop("P23", "Blueprints stand for their builder",
     "Every blueprint of a builder, plain, dynamic or unsized, copied, converted or opened from a can, has the builder's one identity, equals every other blueprint of its kind of that builder and hashes alike, also for builders of size zero; blueprints of different builders differ in identity and are not equal. A blueprint keeps its builder alive and in place on its own, and the builder ends, once, with its last blueprint.",
     ("inputs",), "every field value and order of dropping, each way to make or convert a blueprint",
     "The tests convert few blueprints, compare none of them across kinds, hash none, and never look when a builder ends; the nightly-only unsized blueprints have no test that is built.", BPS,
     [("Blueprint, BlueprintDyn, BlueprintUnsized", "src/blueprint.rs"), ("CanBuilder::can_unsized, BuilderArtifact", "src/canning.rs")], [("BuilderId", "the builder's address", "src/lib.rs")], ["id(), ==, hash, From/into_unsized/from_bp/from_sized, drop"])
prop("P24", "Handles name what they stand for",
     "A builder handle has its builder's identity and keeps it alive; two are equal, and then hash alike, exactly if they are of one builder, by whichever blueprint they were made and whatever texts they carry. An artifact handle holds the artifact itself and gives it back; two are equal, and then hash alike, exactly if they are of one artifact, wherever in the program they were made.",
     ("inputs",), "every value, for Rc, Arc and Box; every choice of vtable addresses",
     "The tests compare no handles. That equality must not depend on how many vtables the compiler makes cannot be seen in a test run, it differs between builds.", ["src/diagnostics/mod.rs"],
     [("BuilderHandle, ArtifactHandle: new, ==, hash, into_inner", "src/diagnostics/mod.rs")], [], ["handles given to a Doctor"])
prop("P25", "A panicking build leaves the cache usable",
     "If a builder panics during its build and the caller catches the panic, no artifact of that build or of a build it interrupted is stored, all other artifacts, dynamic states and known builders stay as they were, and later requests, invalidations, purges, state changes and collections work, without panicking, as after a failed build.",
     ("fault_sequences", "histories"), "every point at which a build may panic, in every graph of three builders, after and before other operations",
     "No test lets a builder panic. What the cache records around a build has to be consistent at each moment a builder has control, not only after the build.", [CI],
     [("RawCache::build", CI), ("RawCache::get", CI)], [("dependents, dependencies, known_builders", "tracked before the build ends", CI)], ["Cache::get* under catch_unwind"])
