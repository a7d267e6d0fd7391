#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d); len(title) <= 80 or print("LONG", id)
D = "code/dynamix/"

p("C01", "A type request always resolves to the one type of its resulting mixin list",
  "Within a domain, requesting a type for an ordered list of mixins yields a type with exactly the ordered list which the list (dependencies dropped, current mutation rules applied) leads to, and there is at most one living type per ordered list, so equal lists give the same type and different lists give different ones. The result never depends on which requests, registrations, rule changes or garbage collections happened before. Lists with an unregistered mixin, a mixin of another domain or a duplicate are rejected with an error and create nothing. A request made before is known: until rules, its mixins or the types change it gives the same type without running the rules again. (Rules are functions of the list; infos change only while unregistered.)",
  ["histories", "inputs"], "all interleaved histories of registering/unregistering mixins and rules, garbage collection and type requests, for all mixin lists",
  "the tests request a handful of fixed lists; cache/identity errors need a particular history (id reuse after unregister, rule added between two equal requests, GC of a cached type)",
  [D+"domain.cpp", D+"domain.hpp", D+"type.hpp"],
  [("type set and query cache lookups", "domain.cpp get_type/create_type"), ("cache invalidation", "domain.cpp add/remove_mutation_rule, unregister_mixin, garbage_collect_types")],
  ["domain::get_type", "domain::num_types", "type::mixins", "domain_traverse"])
p("C02", "Feature tables hold exactly what the mixins provide, in bid/priority order",
  "For every type and feature the provided payloads are exactly those which the type's mixins declare, ordered by bid (highest first), then priority, then mixin order (later mixin first), and the queries built on it (implements, strong/weak, next implementer, next bidder set) agree with that order and with the feature's default. A feature which forbids clashes makes type creation fail exactly when two providers share bid and priority, and leaves no trace of the failed type.",
  ["programs", "inputs"], "all sets of mixins with any features, bids, priorities and any mixin order",
  "the tests use a few hand-made combinations; ordering mistakes show only for particular mixes of bids, priorities, orders and sparse feature ids",
  [D+"domain.cpp", D+"type.cpp", D+"type.hpp", D+"type_mutation.cpp", "code/dnmx/basic_type.h"],
  [("four-pass ftable construction", "domain.cpp ftable_build_helper"), ("next implementer/bidder search", "type.cpp")],
  ["type::ftable_at", "type::implements*", "type::find_next_implementer", "type::find_next_bidder_set"])
p("C03", "A message call reaches exactly the implementations it promises, in order",
  "Calling a message on an object runs the top-bid top-priority implementation (unicast) or every top-bid implementation exactly once in the documented order (multicast) on that object's own mixins, with the caller's arguments and result passed through faithfully, a default implementation running iff no mixin provides one, and a feature error raised when nothing can run. Calling the next implementer or the next bidders from within an implementation continues down the same order, never repeating or skipping one, and reports when there is nothing further. The implementation which runs last, a default one, and a mixin with external memory which stays in the object may mutate the object. (A mixin implements a message at most once.)",
  ["programs", "inputs"], "all message signatures, mechanisms, default/clash settings, bid and priority assignments and mixin compositions",
  "tests cover a few fixed messages with fixed mixins; dispatch order and argument forwarding must hold for every composition and argument category",
  [D+"msg/msg_caller.hpp", D+"msg/msg_traits.hpp", D+"msg/next_impl.hpp", D+"msg/msg_macros.hpp", D+"msg/func_traits.hpp", D+"domain.cpp"],
  [("payload callers", "msg/msg_caller.hpp"), ("next_impl functions", "msg/next_impl.hpp"), ("payload builders", "msg/msg_traits.hpp")],
  ["generated message functions", "per-implementation call log"])
p("C04", "Mutating an object keeps its other mixins' state and never loses or doubles one",
  "After a successful mutation to a type, an object holds exactly that type's mixins in that order: mixins it already had keep their state (external ones also their address), new ones were initialised exactly once, dropped ones destroyed exactly once, and nothing else was touched. This includes mutations to and from the empty type and to the same type. When the object dies every mixin it holds is destroyed exactly once.",
  ["histories", "programs"], "all sequences of mutations over all types (sizes, alignments, internal/external/allocated mixins, orders)",
  "tests mutate a few objects through a few types; wrong moves, double destruction or state loss need specific mixes of common/new/old, internal/external mixins",
  [D+"object_mutation.cpp", D+"object_mutation.hpp", D+"object.cpp", D+"type.cpp", D+"mutate_to.hpp"],
  [("allocate/finalize of mixin data", "object_mutation.cpp"), ("clear/reset_type", "object.cpp")],
  ["mixin init/move/destroy calls", "object::get*", "object::get_type"])
p("C05", "A failed mutation leaves the object exactly as it was and leaks nothing",
  "If any allocation, mixin initialisation or user callback fails while an object is being created, mutated or type-reset, the error reaches the caller, the object keeps its former type, mixins and state, every mixin initialised on the way is destroyed exactly once in reverse order, and all memory taken is given back. This holds at every failure point, including when the operation runs while another exception is being handled or unwound, which must not by itself make a mutation fail or succeed.",
  ["fault_sequences", "crash_points"], "every failing allocation / initialiser / callback position in every mutation",
  "tests throw at one or two fixed points; each of the many allocation and construction steps is a distinct failure point",
  [D+"object_mutation.cpp", D+"object_mutation.hpp", D+"mutate.hpp", D+"object.cpp", D+"mutate-c.cpp"],
  [("rollback in the mutation's destructor", "object_mutation.cpp")],
  ["injected faults", "allocator accounting", "mixin lifetimes"])
p("C06", "Mixins in an object are aligned, disjoint, in bounds and know their object",
  "Every mixin of a living object lies within memory obtained for that object, at an address aligned as its info demands, overlapping no other mixin, bookkeeping or back-pointer, and the object reached from a mixin's address is always the object which currently owns it, also after moves and mutations and while the mixin is being constructed or destroyed. The mixin reachable by index, id, name or info is the same one.",
  ["programs", "inputs"], "all mixin sizes (including zero), alignments, orders, internal/external placements, and mutation/move histories",
  "tests use small well-aligned structs; padding errors need particular size/alignment sequences",
  [D+"domain.cpp", D+"object_mutation.cpp", D+"object_of.hpp", D+"object.cpp", "code/dnmx/mixin_info.h", "code/dnmx/object_mixin_data.h", D+"type.cpp"],
  [("object buffer layout", "domain.cpp create_type"), ("back pointer placement", "object_mutation.cpp, object_mixin_data.h")],
  ["object::get*", "object_of", "tracking memory resource"])
p("C07", "Registries of mixins, features and type classes stay consistent in every history",
  "A registered mixin or feature has an id which no other registered one of the domain has, reuses the smallest free one, and is found by that id and its name until it is unregistered, after which it is not; type classes are found by name from registration to unregistration, also in slots reused after an unregistration. Registrations breaking the domain's rules (duplicate or empty names where forbidden, missing function, already registered, of another domain) and unregistrations of what is not registered there fail with an error (unknown type classes: are ignored) and change nothing about anything registered.",
  ["histories"], "all sequences of register/unregister/lookup over all domain settings",
  "tests register a few infos once; slot reuse and failed registrations need particular histories",
  [D+"domain.cpp", D+"domain.hpp", D+"throw_exception.cpp"],
  [("sparse id arrays", "domain.cpp basic_register_l/basic_unregister_l"), ("type class slots", "domain.cpp register_type_class")],
  ["domain::register_*", "domain::get_*_info", "domain_traverse"])
p("C08", "Mutation rules apply in order, to a fixpoint, exactly while they are registered",
  "A type request runs all registered rules, ordered by priority then name, repeatedly until they change nothing more, on the requested list without its dependency mixins; rules are reference counted and every type request after a rule's first add or last removal sees the new rule set. A rule's error, or rules which do not settle within the bound, make the request fail with an error, creating nothing; the common rules (attaches-to, also-adds) add their mixin exactly when the other one is present.",
  ["histories", "programs"], "all rule sets (adding/removing/reordering mixins), rule histories and request lists",
  "tests combine two or three rules; fixpoint bounds and cache invalidation depend on rule interplay and history",
  [D+"domain.cpp", D+"common_mutation_rules.hpp", D+"mutation_rule_info.hpp"],
  [("apply_mutation_rules_l", "domain.cpp"), ("rule refcounts and query invalidation", "domain.cpp add/remove_mutation_rule")],
  ["rule call log", "domain::get_type result"])
p("C09", "Concurrent use of a domain is race free and loses nothing",
  "Any number of threads may at once request types, create/mutate/destroy their own objects, look up and register infos and rules and collect garbage on one domain without data races, deadlock or crashes; all threads requesting one list get one and the same type, ids stay unique, and object counts are exact once threads are done. (Types in use are held by objects while garbage is collected, and mixins are not being unregistered while requests name them.)",
  ["schedules"], "all thread schedules of domain operations",
  "the existing tests are (almost) single threaded; races need interleavings inside lock windows",
  [D+"domain.cpp", D+"type.hpp", D+"type.cpp"],
  [("element and type registry mutexes", "domain.cpp"), ("relaxed object counter", "type.hpp")],
  ["thread sanitizer", "per-thread results"])
p("C10", "Invalidation concurrent with type requests leaves no stale result behind",
  "A type request which starts after a mutation rule was added or removed, a mixin was unregistered or types were collected never returns a result computed from the state before it, no matter which other requests were in flight at the time, and never a type which no longer exists.",
  ["schedules"], "all interleavings of in-flight type requests with invalidating operations",
  "needs an invalidation between a request's computation and its caching; no test has two threads at that point",
  [D+"domain.cpp"],
  [("storing of type queries after computing them", "domain.cpp get_type/create_type")],
  ["domain::get_type results after quiescence", "forced interleavings via allocator and lock callbacks"])
p("C11", "Copying and moving objects transfers exactly the documented state",
  "A copy has the source's type and equal mixin states in its own storage; copy-assignment makes the target like the source (assigning common, copy-constructing new and destroying other mixins); the matching variants assign exactly the mixins both objects have; moving hands over everything without touching any mixin and leaves the source valid and empty. Where a needed mixin function is missing the operation fails up front with an error and changes nothing, and a failing copy leaves both objects valid with the target's type unchanged.",
  ["histories", "fault_sequences"], "all pairs of source/target types and states and all failing positions",
  "tests use a few types; each common/new/old split and failure position differs",
  [D+"object.cpp", D+"object_mutation.cpp"],
  [("copy/copy_from/copy_matching_from/move_matching_from/usurp", "object.cpp")],
  ["mixin copy/move/destroy calls", "object state"])
p("C12", "Comparisons of objects and types are consistent and follow the mixins' functions",
  "Object equality is true for self, false for different types, and otherwise the conjunction of the mixins' equality (or comparison) functions, false if one has none; three-way comparison orders by type then by the first differing mixin and fails with an error if a needed function is missing. Type comparison is zero only for the same type, antisymmetric and transitive, and orders by mixins in canonical order; the type traits (default-constructible, copyable, comparable...) say exactly whether every mixin has the functions needed.",
  ["inputs"], "all pairs/triples of objects and types",
  "order axioms are universally quantified; tests compare a few pairs",
  [D+"object.cpp", D+"type.cpp", "code/dnmx/mixin_info.h"],
  [("object::equals/compare", "object.cpp"), ("type::compare and traits", "type.cpp")],
  ["object::equals/compare", "type::compare", "type traits"])
p("C13", "A sealed object's type can never change, and nothing else about it is restricted",
  "While an object is sealed every operation which could change its type or replace its mixins (clear, type reset, mutation in any form, move-assignment into it, copy-from) fails with an error and has no effect on it; reading, changing mixin state, copying from it, moving out of it and destroying it keep working. Seal status is handed over by moving the object and in no other way. (Whether a mutation which would change nothing fails depends on its form; the flag of a moved-from object is unspecified.)",
  ["histories"], "all operation sequences around seal() through C++ and C entry points",
  "tests check a few operations in one state; each entry point has its own check",
  [D+"object.cpp", D+"object.hpp", D+"object_mutation.cpp", D+"object-c.cpp"],
  [("sealed checks", "object.cpp, object_mutation.cpp")],
  ["object::sealed", "errors and unchanged object state"])
p("C14", "Object counts are exact and garbage collection removes exactly the unused types",
  "The number of objects a type reports equals the number of living non-empty objects of that type at every quiescent moment. Garbage collection removes exactly the types without objects (and what is cached for them), keeps all others valid and identical, and unregistering a mixin removes exactly the types which have it; later requests recreate removed types correctly.",
  ["histories"], "all histories of object creation/mutation/move/failure, GC and unregistration",
  "tests check a couple of counts; leaks of a count need failure paths, moves and shortcuts",
  [D+"type.cpp", D+"type.hpp", D+"domain.cpp", D+"object_mutation.cpp"],
  [("count updates in buffer (de)allocation", "type.cpp"), ("garbage_collect_types", "domain.cpp")],
  ["type::num_objects", "domain::num_types", "domain_traverse"])
p("C15", "All memory comes from and returns to the allocators the user supplied",
  "Everything a domain, object, type mutation or mixin info data allocates for itself comes from the allocator it was given (mixin-specific allocators for mixins which have one), is returned to the same one with the same size and alignment exactly once, and nothing is outstanding once it is destroyed. Memory sizes and alignments requested from a mixin allocator match what the mixin info says.",
  ["histories", "configurations"], "all histories and allocator assignments",
  "tests count allocations in a few scenarios; every path pairs its own allocation and release",
  [D+"object_mutation.cpp", D+"type.cpp", D+"domain.cpp", D+"mixin_allocator.hpp", D+"mixin_allocator-c.cpp", D+"allocator.hpp", D+"any.hpp", D+"compat/pmr/allocator.hpp"],
  [("allocate/deallocate pairs", "object_mutation.cpp, type.cpp, domain.cpp deleter")],
  ["tracking memory resources", "tracking mixin allocators"])
p("C16", "The C interface does what the C++ one does and never lets an exception out",
  "Every function of the C interface has the effect and result of its C++ counterpart for the same inputs, reports failure by its documented return value (error code, null, false) exactly when the counterpart fails, leaves the same state behind, and never lets a C++ exception cross into C. What both languages declare (structures, constants, inline functions, macros) is the same for both.",
  ["inputs", "histories"], "all C calls with valid and failing arguments",
  "the C tests run one happy path; each wrapper's failure path is untested",
  [D+"object-c.cpp", D+"mutate-c.cpp", D+"domain-c.cpp", D+"type-c.cpp", D+"type_mutation-c.cpp", D+"mixin_allocator-c.cpp", "code/dnmx/object.h", "code/dnmx/mutate.h"],
  [("try/catch wrappers", "*-c.cpp")],
  ["return values", "object and domain state", "uncaught exceptions"])
p("C17", "Mutate expressions build the requested type and run each initialiser once",
  "mutate(obj, ops...) and its to-a-type and step-by-step forms lead to the type which applying the operations in order (add, remove, to-back, add-if-lacking) to the object's type and then the mutation rules gives; each custom initialiser given for a mixin which ends up newly added runs exactly once, on that mixin, with the arguments given, in mixin order, others are default-initialised, and initialisers for mixins which are not new or not in the type do not run. Conflicting or impossible requests fail with an error and no effect.",
  ["programs", "inputs"], "all operation lists over all object types and rule sets",
  "tests run a few lists; matching of initialisers to mixins depends on order, rules and duplicates",
  [D+"mutate.hpp", D+"mutate_to.hpp", D+"mutate_ops.hpp", D+"mutate_to_ops.hpp", D+"object_mutate_ops.hpp", D+"bits/make_from_tuple.hpp"],
  [("op filtering and sorting", "mutate_to.hpp"), ("ops", "mutate_ops.hpp"), ("gradual_mutation", "mutate.hpp")],
  ["initialiser call log", "resulting type and states"])
p("C18", "Piecewise mutation visits every mixin once in order and rejects misuse",
  "Driving an object mutation by hand, in any legal mix of next/up-to/at-index steps, visits every target mixin exactly once in order, calling the construct function for new and the update function for common ones with the right info, buffer, indices and types; what is not visited explicitly is default-initialised at the end. Going back to an already visited index fails with an error and the object is rolled back; completing or rolling back early by hand is final and safe.",
  ["programs", "fault_sequences"], "all step sequences over all source/target type pairs",
  "tests drive a couple of sequences",
  [D+"object_mutation.hpp", D+"object_mutation.cpp"],
  [("update_next/update_each/update_at/finalize/rollback", "object_mutation.hpp")],
  ["callback log", "resulting object"])
p("C19", "Type mutation edits behave as edits of an ordered mixin list",
  "A type mutation starts with its base type's mixins (or none) and each edit - add, add-if-lacking, safe variants, remove, to-back, dedup, by info or by name - and each query on it acts exactly as on the ordered list of mixins it stands for. Edits naming unknown mixins fail with an error or report nothing, as documented, without changing the list.",
  ["histories"], "all edit sequences, including duplicates and unknown names",
  "tests run one sequence; duplicates and failing edits are rarely combined",
  [D+"type_mutation.hpp", D+"type_mutation.cpp", D+"type_mutation-c.cpp"],
  [("list edits", "type_mutation.cpp")],
  ["type_mutation::mixins", "return values"])
p("C20", "String views compare, search and convert like the standard ones",
  "For all byte strings (empty, overlapping, embedded zero and high bytes, common prefixes, shared starts) the string view type's construction, equality, three-way comparison and conversions agree with the standard library's, in C and C++; comparison is a total order, equal to zero exactly for equal content.",
  ["inputs"], "all pairs and triples of byte strings",
  "the unit test compares a few literals",
  ["code/dnmx/bits/sv.h"],
  [("dnmx_sv functions", "code/dnmx/bits/sv.h")],
  ["dnmx_sv_* results"])
p("C21", "Declarative definitions register what they say and undo it completely",
  "A mixin, feature, type class or domain defined through the builders or definition macros has exactly the name, functions, size, features, bids, priorities, allocator and rules the definition states, with functions present exactly when the C++ type supports them and behaving as the type's own operations. Registering one in a domain registers it and all of its rules or, on failure, nothing (but possibly the features it names); unregistering removes all it brought. Definitions in different translation units work whatever the order in which these are initialised. (Infos leave a domain before its end.)",
  ["programs"], "all C++ mixin types and builder call sequences",
  "tests define a dozen mixins",
  [D+"mixin_info_data.hpp", D+"mixin_info_data.cpp", D+"feature_info_data.hpp", D+"define_mixin.hpp", D+"define_domain.hpp", D+"define_type_class.hpp", D+"mixin_info_util.hpp", D+"mixin_info_data_literals.hpp", "code/dnmx/mixin_common_funcs.c"],
  [("common_init_mixin_info", "mixin_info_util.hpp"), ("register_in/unregister_from", "mixin_info_data.cpp")],
  ["the info's fields", "domain lookups and rule counts before/after"])
p("C22", "Inspection reports exactly the domain's real content",
  "Traversing a domain visits exactly its registered mixins, features, rules (with their counts), type classes, its types and its cached queries, each once; debug dumps name all of them and every value of theirs; neither changes anything in the domain.",
  ["histories"], "all domain contents",
  "tests dump one fixed domain",
  [D+"domain_traverse.hpp", D+"dbg_dmp.cpp", D+"domain.cpp"],
  [("domain_traverse", "domain.cpp"), ("dbg_dmp", "dbg_dmp.cpp")],
  ["traversal callbacks", "dump text parsed back"])
p("C23", "Failing domain operations report the right error and leave the domain usable",
  "When a registration, type request or rule change fails - because the input is wrong or because memory runs out at any point - an error of the documented class which names what it is about is raised, the domain holds exactly what it held before (features registered along with a mixin, and a type which was complete before memory ran out, excepted), nothing leaks, and the same operation succeeds later once its cause is gone.",
  ["fault_sequences", "inputs"], "every failing allocation and every invalid input of every domain operation",
  "no test fails an allocation in the domain",
  [D+"domain.cpp", D+"throw_exception.cpp", D+"exception.hpp", D+"type_mutation.cpp"],
  [("error construction", "throw_exception.cpp"), ("unique_ptr-held type under construction", "domain.cpp")],
  ["exception type and text", "domain content before/after", "tracking memory resource"])
p("C24", "The version-1 compatible layer keeps its documented call semantics",
  "Through the compatibility layer (mixins, messages and type classes made with the DYNAMIX_V1_ macros), a call reaches exactly the mixins it should, in their order, with its arguments as given and with their results: unicasts, multicasts, overloads, bids and priorities, next bidders, functions bound to messages, inherited methods and default implementations; messages and mixins are known by their names; combinators see the results of the implementations in call order and the number of them, may stop the call early, and the built-in ones compute the boolean, sum and mean they are named after. Mixins keep their address in mutations; objects are copyable if all their mixins are. The rules of the layer do what they are named after (substitute, mandatory, deprecated, dependent, mutually exclusive - keeping the last), the lowest free id is given to an added rule and removing it gives back the rule itself, from any thread.",
  ["programs", "inputs", "schedules"], "all combinations of implementations, scripts of calls, results, combinators and rules",
  "the layer has few tests and they are not even built here",
  ["v1compat/code/dynamix/v1compat/combinators.hpp", "v1compat/code/dynamix/v1compat/object.cpp", "v1compat/code/dynamix/v1compat/mutation_rules.cpp", "v1compat/code/dynamix/v1compat/define_mixin.hpp", "v1compat/gen/arity_message_macros_template", D+"msg/msg_caller.hpp"],
  [("combinators", "v1compat/combinators.hpp"), ("message macros", "v1compat message macros"), ("rule registry", "v1compat mutation_rules.cpp")],
  ["combinator results", "call log", "rule ids"])
p("C25", "Small building blocks (ids, any, tuples, literals, traits) keep their contracts",
  "Ids compare and stay invalid by default as declared; owning and non-owning type-erased holders expose the same value to every copy, keep it alive as long as one exists and destroy it once, with the allocator given; constructing from a tuple passes every argument with its value category; multiples round up; function traits and names derived from types describe the types they are given; the library's own replacement of std::pmr can be used in its place with the same effect.",
  ["inputs", "programs"], "all argument categories, holder copies and type names",
  "tests check one or two instantiations each",
  [D+"any.hpp", D+"bits/make_from_tuple.hpp", D+"bits/q_const.hpp", D+"bits/type_name_from_typeid.hpp", D+"msg/func_traits.hpp", D+"alloc_util.hpp", "code/dnmx/bits/id_int_t.h", "code/dnmx/mixin_id.h"],
  [("any/t_any", "any.hpp"), ("make_from_tuple", "bits/make_from_tuple.hpp")],
  ["instrumented argument types", "lifetime registry"])
p("C26", "Libraries can be loaded and unloaded while the program uses the domain",
  "A shared library which defines mixins, messages, features, rules or type classes for a domain of another library brings exactly these into the domain when it is loaded. Objects use them as any others, from the program and from within the library: messages, mutations, types and errors mean the same on both sides. When the library is unloaded (no object has its mixins any more, its messages are unregistered by it) the domain keeps nothing which refers to it, and everything else - objects and their state, types, other libraries - works on; the same or another version of it can be loaded again. This holds with several threads, each using other objects and libraries, and a program which ends with libraries loaded ends normally.",
  ["histories", "schedules"], "all histories of loading, using and unloading any of several libraries in any order, by one or several threads",
  "the tests load three plugins once; what is left behind by a library shows after it is unmapped, by a later operation which happens to look at it",
  [D+"define_mixin.hpp", D+"define_type_class.hpp", D+"define_domain.hpp", D+"mixin_info_data.cpp", D+"domain.cpp", D+"msg/define_msg.hpp", "code/dnmx/api.h", D+"exception.hpp"],
  [("instances which register and unregister", "define_mixin.hpp, define_type_class.hpp"), ("purge of types and queries", "domain.cpp unregister_mixin"), ("exported classes", "DYNAMIX_API")],
  ["dlopen/dlclose", "domain_traverse", "message calls and errors on both sides"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
