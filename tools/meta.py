#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing this file)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan  # noqa: E402

CI = "src/cache/internal.rs"
CA = "src/cache.rs"
HIST = "inputs", "programs", "histories"
T = {
    "hist": "The tests run a handful of fixed builders (a chain of four types, one diamond) through short fixed sequences; the claim quantifies over every dependency graph, every builder behaviour and every operation sequence.",
    "order": " It also depends on hash iteration order, which a test run samples once.",
}
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook},
    })


prop("P01", "Memoisation and sharing",
     "While an artifact is cached and valid, every request for its builder, directly or through any number of dependents, is answered with that same artifact and its builder is not run again. Within one request each builder builds at most one artifact, however many others depend on it. Requests and lookups always return the artifact of the builder asked for, and the latest one.",
     HIST, "every acyclic dependency graph, every order of resolving, every history of requests and removals",
     T["hist"], [CI, CA],
     [("RawCache::get/get_ref/get_cloned: lookup before build", CI), ("RawCache::build inserts the artifact", CI)],
     [("artifacts", "artifact per builder id", CI)], ["Cache::get", "Cache::lookup", "calls of Builder::build"])
prop("P02", "Invalidation completeness",
     "Once a builder is invalidated or purged, or its dynamic state is mutably accessed, its own artifact and every artifact built from it, or built after asking for it in vain, directly or transitively, are gone from the cache before the operation returns, and are rebuilt on the next request. At any time every cached artifact was built from the artifacts of its dependencies that are cached now.",
     HIST, "every acyclic dependency graph incl. ones that change from build to build, every target, every history, every hash order",
     T["hist"] + T["order"], [CI],
     [("RawCache::invalidate_by_id: worklist over dependents", CI), ("RawCache::track_dependency", CI), ("RawCache::purge, dyn_state_mut", CI)],
     [("dependents", "who depends on a builder", CI), ("dependencies", "reverse of dependents", CI)],
     ["Cache::lookup after invalidate/purge/dyn_state_mut"])
prop("P03", "Invalidation precision",
     "Invalidating, purging or mutably accessing the state of a builder removes no artifact whose builder did not ask for it, directly or transitively. In particular a builder that stopped depending on another one in its latest build is no longer affected by it, and no dynamic state of any other builder is touched.",
     HIST, "every acyclic dependency graph incl. ones that change from build to build, every target, every history, every hash order",
     T["hist"] + T["order"] + " Stale dependency edges only matter after a rebuild with different dependencies, which no test does.", [CI],
     [("RawCache::invalidate_by_id removes the outgoing edges of what it invalidates", CI)],
     [("dependencies", "edges to drop when a builder is invalidated", CI)], ["Cache::lookup, Cache::get_dyn_state after an invalidation"])
prop("P04", "Mutable artifact access",
     "get_mut and lookup_mut return the current artifact of the builder asked for, remove every artifact built from it, or after asking for it in vain, directly or transitively, and remove nothing else, in particular not the accessed artifact itself; later invalidations keep working. lookup_mut builds nothing and get_mut builds only what is not cached.",
     HIST, "every acyclic dependency graph, every target, histories mixing mutable access with other operations (feature mut_box)",
     "The tests only call get_mut on artifacts without dependents; with dependents it used to panic.", [CI, CA, "src/boxed.rs"],
     [("RawCache::lookup_mut, get_mut", CI), ("RawCache::invalidate_dependents", CI)], [], ["Cache::get_mut", "Cache::lookup_mut"])
prop("P05", "Dynamic state lifecycle",
     "The dynamic state of a builder is initialised from that builder, once, when it is first needed; from then on every reader, inside the builder's own build and outside, sees the last value written. It survives invalidation, clearing of artifacts, rebuilding and failed builds, and it ends exactly when the builder is purged, the cache is cleared entirely or the builder is collected.",
     HIST, "every history of state accesses, builds that write their state, failures and removals; every state value",
     "The tests read one counter-like state a few times; lifetime across all mixes of operations is a property of histories.", [CI, CA],
     [("RawCache::ensure_dyn_state, dyn_state_cast_mut, dyn_state_cast_ref", CI), ("Resolver::my_state", CA)],
     [("dyn_states", "state per builder id", CI)], ["Cache::dyn_state", "Cache::get_dyn_state", "Resolver::my_state"])
prop("P06", "Transparency: cached equals recomputed",
     "If builders are pure functions of their dependencies' artifacts and their own dynamic state, then after any history of requests, state changes, invalidations and purges, a request returns exactly the value that computing everything from scratch with the current states would give. The same holds for every artifact that is still cached.",
     HIST, "every acyclic dependency graph, every state value written, every history",
     T["hist"], [CI, CA],
     [("RawCache::dyn_state_mut invalidates", CI), ("RawCache::invalidate_by_id", CI), ("RawCache::get", CI)], [], ["Cache::get value"])
prop("P07", "Failing builds",
     "A failing build stores no artifact for the failing builder or for any builder that passed the failure on, its error reaches the caller unchanged, and dependencies that were built successfully on the way stay cached. A failure is not remembered: the next request tries again and succeeds as soon as the cause is gone.",
     ("inputs", "fault_sequences", "histories"), "every acyclic graph, every set of failing builders, builders that pass on or tolerate failures, every history",
     "The tests fail one leaf builder; failure in the middle of a shared graph, and retry after it, is not tried.", [CI],
     [("RawCache::build maps only Ok into the cache", CI)], [], ["Cache::get result", "Cache::lookup"])
prop("P08", "No panic on valid use",
     "No sequence of cache operations on builders with acyclic dependencies panics, whether or not the builders involved are known to the cache, were purged, failed or are gone.",
     HIST, "every history of operations within the bounds, on known and unknown builders",
     "Internal consistency assertions and indexing depend on the whole history; the tests reach a few histories. garbage_collection after purge used to panic.", [CI],
     [("debug_assert!/expect/indexing on the internal maps", CI)], [("known_leaf_builder", "builders without dependents", CI)], ["panics"])
prop("P09", "Garbage collection is safe",
     "garbage_collection changes nothing about a builder that can still be used: it stays known, and keeps its dynamic state and its artifact. Artifacts a surviving artifact was built from survive too.",
     HIST, "every graph, every set of released builders, every history before the collection",
     "The tests collect after releasing everything, or one leaf.", [CI],
     [("RawCache::garbage_collection upgrades weak references", CI)], [("known_builders", "weak reference per known builder", CI)], ["Cache::lookup, get_dyn_state, is_builder_known after garbage_collection"])
prop("P10", "Garbage collection is complete",
     "After one garbage_collection every builder that is unreachable, and that no builder still in use was built from, is forgotten: it is not known any more, and its artifact and dynamic state are gone.",
     HIST, "every graph, every set of released builders, every history before the collection",
     "The tests collect a single level; chains of unreachable builders used to survive.", [CI],
     [("RawCache::garbage_collection", CI), ("known_leaf_builder maintenance in invalidate_by_id, track_dependency, make_builder_known", CI)],
     [("known_leaf_builder", "candidates for collection", CI)], ["Cache::is_builder_known, number_of_known_builders"])
prop("P11", "No identity confusion",
     "A builder allocated where an earlier, meanwhile freed builder lived is a new builder: it is unknown to the cache and inherits neither artifact nor dynamic state. As long as the cache keeps data about a builder it keeps the builder's memory reserved, so that its identity cannot be reused.",
     HIST, "every history of removals and releases before the reuse",
     "Address reuse depends on the allocator; no test provokes it.", [CI, "src/lib.rs"],
     [("known_builders keeps a weak reference while an id is used as a key", CI)], [("known_builders", "weak reference per known builder", CI)], ["Cache::get on a new builder at an old address"])
prop("P12", "Known-builder accounting",
     "A builder is known exactly from the first time it is built, resolved or its state is created until it is purged, collected or the cache is cleared, and number_of_known_builders counts the known builders. A builder that is not known has neither artifact nor dynamic state in the cache.",
     HIST, "every history of operations",
     T["hist"], [CI],
     [("RawCache::make_builder_known", CI), ("RawCache::purge, clear_all, garbage_collection", CI)], [("known_builders", "weak reference per known builder", CI)],
     ["Cache::is_builder_known", "Cache::number_of_known_builders"])
prop("P13", "Reading changes nothing",
     "lookup, lookup_ref, lookup_cloned, get_dyn_state, is_builder_known and number_of_known_builders build nothing, remove nothing, make no builder known and create no state. dyn_state and garbage_collection (with everything in use) leave all artifacts alone.",
     HIST, "every history before the reading, known and unknown builders",
     T["hist"], [CI, CA], [("RawCache::lookup*, get_dyn_state", CI)], [], ["everything observable before and after"])
prop("P14", "Accessors agree",
     "get, get_ref and get_cloned, and likewise lookup, lookup_ref and lookup_cloned, return the same artifact at any time, and resolve, resolve_ref and resolve_cloned hand out the current artifact of the resolved builder. Whichever is used, the dependency is tracked and the artifact is cached alike.",
     HIST, "every graph, every mix of accessors, every history", "Tests use mostly one accessor per scenario.", [CA, CI],
     [("Cache::get*, lookup*", CA), ("Resolver::resolve*", CA)], [], ["values returned; effects of later invalidations"])
prop("P15", "Clearing",
     "clear_artifacts removes every artifact and nothing else: all builders stay known and keep their dynamic states. After clear_all the cache behaves like a new one.",
     HIST, "every history before and after the clearing", "The tests clear once after a single build and do not continue in depth.", [CI],
     [("RawCache::clear_artifacts, clear_all", CI)], [], ["everything observable after clearing"])
prop("P17", "Diagnostics do not change behaviour",
     "With the diagnostics feature enabled every operation has the same result and the same effect on artifacts, states and known builders as without it.",
     ("histories", "configurations", "inputs"), "every graph and history, with the feature on",
     "The test suite is run per feature but compares no histories between configurations.", [CI, CA, "src/diagnostics/mod.rs"],
     [("cfg(feature = \"diagnostics\") branches", CI)], [], ["everything observable, feature on"])
prop("P21", "The cache owns no builder and drops what it removes",
     "The cache never keeps a builder alive: outside a running build it holds no strong reference to any builder, and a weak one exactly while the builder is known. An artifact or dynamic state that is removed is dropped at once, and none is dropped or duplicated otherwise.",
     HIST, "every graph and history", "No test counts references.", [CI],
     [("BuilderEntry lives only during a build", CI), ("known_builders holds CanWeak", CI)], [("known_builders", "weak reference per known builder", CI)],
     ["strong/weak counts", "live artifacts per builder"])

NA = []
exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None

P.sort(key=lambda p: p["id"])
TECH = "bounded model checking (CBMC/SAT) of the compiled MIR of the real crate via Kani, symbolic graphs/histories, counterexamples replayed natively"


def main():
    na = {n["property"] for n in NA}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        if p["id"] in na:
            continue
        i = p["id"]
        assert i in plan.P, i
        checks.append({
            "property": i, "quick_cmd": "python3 run.py " + i + " --tier quick",
            "thorough_cmd": "python3 run.py " + i + " --tier thorough",
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH, "level": plan.LEVEL, "level_note": plan.level_note(i),
        })
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": NA,
         "notes": "No hooks: the checks compile an unmodified copy of /repo/src against a bounded model of std's hash collections. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()


def design():
    rows = []
    for p in P:
        if p["id"] in {n["property"] for n in NA}:
            continue
        q, x = plan.P[p["id"]], plan.X.get(p["id"], [])
        rows.append("| %s %s | quick: %s%s | %s |" % (
            p["id"], p["title"], " ".join(s.name for s in q),
            "; thorough adds: " + " ".join(s.name + ("" if s.cfg == q[0].cfg else "@" + s.cfg) for s in x) if x else "",
            ", ".join(sorted({s.cfg for s in q}))))
    na = "\n".join("* %s: %s" % (n["property"], n["reason"]) for n in NA) or "Nothing."
    sd = []
    d = os.path.join(HERE, "seeded")
    caught = {}
    f = os.path.join(HERE, "tools", "caught.json")
    if os.path.exists(f):
        caught = json.load(open(f))
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = os.path.join(d, n, "meta.json")
        if os.path.exists(m):
            j = json.load(open(m))
            sd.append("| %s | %s | %s | %s |" % (n, j["property"], j["what_it_breaks"], caught.get(n, "?")))
    t = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
    t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@NA@@", na).replace(
        "@@SEEDED@@", "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(sd))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t)


design()
