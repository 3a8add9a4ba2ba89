#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and spec.py."""
import json, os
import spec

HERE = os.path.dirname(os.path.abspath(__file__))
CORE, WEB, HTML, UT, BOW = ("async_ui_web_core/src/", "async_ui_web/src/", "async_ui_web_html/src/",
                            "async_ui_internal_utils/src/", "x-bow/src/")
CB = CORE + "combinators/"
_comb_files = [CB + d + "/" + f + ".rs" for d in ("common",) for f in ("tuple", "array", "vec")]
_tests = "The combinator unit tests run a handful of fixed sequences with small, fixed numbers of futures."

PROPS = [
 ("C01", "join returns all outputs in order once every subfuture is done",
  "Joining futures (in a tuple, array or vector) completes exactly when the last of them has completed, and yields every output at the place of its future. "
  "A subfuture that completed is never polled again, and as long as one is unfinished the join stays pending. The same holds for a try-join in which all succeed.",
  ["schedules", "inputs"], "all completion orders, wake-ups between polls, spurious polls, numbers of subfutures and container shapes",
  _tests + " The order in which futures complete and are woken is what the bookkeeping depends on.",
  _comb_files + [CB + "join/tuple.rs", CB + "join/array.rs", CB + "join/vec.rs"],
  [("output slots and pending count", CB + "common/array.rs"), ("per-index readiness list", CB + "utils/wakers/array/readiness.rs")]),
 ("C02", "race, try_join and race_ok return the deciding subfuture's outcome",
  "A race yields the output of the first subfuture found to be complete; a try-join fails with the first error and a race-ok succeeds with the first success, without waiting for the others. "
  "If nothing short-circuits, try-join yields all values and race-ok all errors, in the order of the subfutures.",
  ["schedules", "inputs"], "all completion orders and success or failure of each subfuture, all shapes",
  _tests, _comb_files + [CB + k + "/" + f + ".rs" for k in ("race", "try_join", "race_ok") for f in ("tuple", "array", "vec")],
  [("short circuit on the deciding output", CB + "common/array.rs"), ("same for vectors", CB + "common/vec.rs"), ("same for tuples", CB + "common/tuple.rs")]),
 ("C03", "no wake-up is lost on its way through a combinator",
  "When a pending subfuture's waker is called, the waker of the task's most recent poll is called too (unless that has been done since), and the next poll of the combinator polls that subfuture. "
  "This holds also for wake-ups during a poll, for several wake-ups between polls, and after the task has been polled with a different waker.",
  ["schedules"], "all interleavings of wakes and polls, self-wakes during polls, changes of the task's waker",
  "A lost wake-up needs a particular interleaving of wakes and polls; tests use block_on-style drivers that poll in one pattern.",
  [CB + "utils/wakers/array/readiness.rs", CB + "utils/wakers/vec/readiness.rs", CB + "utils/wakers/shared_arc.rs", CB + "utils/wakers/array/waker_array.rs", CB + "utils/wakers/vec/waker_vec.rs"] + _comb_files,
  [("awake set and list", CB + "utils/wakers/vec/readiness.rs"), ("inline wakers", CB + "utils/wakers/shared_arc.rs")]),
 ("C04", "every output and subfuture is dropped exactly once, whenever one cancels",
  "However far a combinator has got when it completes or is dropped, each subfuture is dropped exactly once, and each output that was produced is either returned or dropped, exactly once. "
  "No memory is leaked and nothing uninitialised is read.",
  ["crash_points", "schedules"], "cancellation after every number of steps, all outcomes",
  "The outputs live in manually managed uninitialised storage; tests do not cancel combinators half way.",
  _comb_files + [CB + "utils/array.rs", CB + "utils/pin.rs", CB + "try_join/array.rs", CB + "race_ok/tuple.rs"],
  [("drop of initialised outputs and pending futures", CB + "common/tuple.rs"), ("same", CB + "common/array.rs")]),
 ("C05", "sub-wakers stay valid after their combinator is gone",
  "Wakers that a combinator handed to its subfutures can be cloned, woken and dropped at any time, also after the combinator has been dropped, without memory errors or leaks.",
  ["schedules"], "all orders of dropping the combinator and using or dropping the wakers it gave out",
  "The wakers are built by hand from raw pointers into one shared allocation; tests keep them only while the combinator lives.",
  [CB + "utils/wakers/shared_arc.rs", CB + "utils/wakers/array/waker_array.rs", CB + "utils/wakers/vec/waker_vec.rs"],
  [("waker vtable and shared allocation", CB + "utils/wakers/shared_arc.rs")]),
 ("C06", "document order follows the structure of the futures",
  "At every moment the nodes under a container are those of the futures currently rendering inside it, in the order in which these futures are written: earlier members of a join or race come first, at every depth. "
  "When nodes appear and disappear over time makes no difference, and nodes placed there by others stay where they are.",
  ["histories", "programs"], "all histories of nodes appearing, disappearing and finishing in nested containers and combinators",
  "Needs nested structures with nodes appearing late in every order; there is no DOM in the unit tests.",
  [CORE + "position.rs", CORE + "context.rs", CORE + "node_container.rs", CORE + "node_sibling.rs"],
  [("ordering of child positions", CORE + "position.rs"), ("insertion before the next sibling", CORE + "context.rs")]),
 ("C07", "dropping a rendering future removes exactly its nodes",
  "When a future that rendered nodes is dropped or replaced, all of its nodes and none of anyone else's leave the document, and every future inside it is dropped. "
  "The same place can be rendered into again afterwards.",
  ["crash_points", "histories"], "drops at every point of every history, at every depth",
  "Depends on what was rendered at the moment of the drop; unit tests render nothing.",
  [CORE + "node_container.rs", CORE + "node_sibling.rs", CORE + "context.rs"],
  [("removal on drop", CORE + "node_container.rs"), ("node groups", CORE + "context.rs")]),
 ("C08", "removing an ancestor detaches once, and only while it lasts",
  "When a rendered element is removed because its future is dropped, its descendants are not taken apart one by one: the document sees one removal per outermost node. "
  "The suppression ends with that removal, so later removals of other nodes work as usual.",
  ["histories", "programs"], "all nested structures, drops at every point, followed by further removals",
  "The suppression is a global flag owned by address; whether it is released depends on how futures are laid out and nested.",
  [CORE + "dropping.rs", CORE + "node_container.rs", CORE + "node_sibling.rs"],
  [("detachment blocker", CORE + "dropping.rs")]),
 ("C09", "mounting and unmounting a root leaves the document clean",
  "A mounted application renders into the given node after the executor ran, unmounts completely when its task handle is dropped, and can be mounted any number of times next to others. "
  "Unmounting never panics, whatever the application was waiting for.",
  ["histories", "crash_points"], "all orders of mounting, running and unmounting several applications with different contents",
  "No test mounts an application; unmounting while parts are pending is a crash point.",
  [WEB + "mount.rs", WEB + "executor.rs", CORE + "node_container.rs"],
  [("spawn on the app-wide executor", WEB + "mount.rs"), ("root container", CORE + "node_container.rs")]),
 ("C10", "the executor runs every woken task, events synchronously",
  "Whenever something wakes the application there will be a run: either the current one picks it up or a new one is scheduled; none is lost, also not when the wake-up comes from within a run. "
  "Work triggered by a browser event is done before the event's dispatch returns, and a future that is dropped or replaced is not run again.",
  ["schedules"], "all interleavings of scheduling, timer callbacks, wake-ups from inside and outside, events and drops",
  "The executor is driven by browser timers and its state is global; tests do not touch it.",
  [CORE + "executor.rs", WEB + "executor.rs", HTML + "event_handling.rs"],
  [("scheduling flag and timer", CORE + "executor.rs"), ("run on event", HTML + "event_handling.rs")]),
 ("C11", "an event future yields the events of its target while it lives",
  "After it has been polled, an event future (or stream) wakes its task on the next dispatch of its event at its target and yields that event, each event at most once, no others. "
  "The options it was given apply, exactly one listener is registered while it lives, and none after it is dropped.",
  ["histories", "inputs"], "all orders of polling, dispatching, dropping; several streams on shared targets; all combinations of options",
  "Requires a document and many interleavings; no test dispatches an event.",
  [HTML + "event_handling.rs", HTML + "common_events.rs"],
  [("listener registration", HTML + "event_handling.rs"), ("removal on drop", HTML + "event_handling.rs")]),
 ("C12", "every listener of a reactive cell hears of every change",
  "When a mutable borrow of a reactive cell ends, every listener waiting on it is woken and its next poll reports the change; changes between two polls are reported once. "
  "A listener is not woken or made ready without a change, and dropping one listener leaves the others untouched.",
  ["histories", "schedules"], "all histories of borrows, polls, drops of several listeners",
  "Listeners share one linked list; which ones are registered and in what order depends on history.",
  [UT + "reactive_cell/mod.rs", UT + "reactive_cell/until_change.rs", UT + "reactive_cell/for_each.rs", UT + "reactive_cell/borrow_mut.rs"],
  [("version and wakers", UT + "reactive_cell/mod.rs")]),
 ("C13", "the shared waker storage keeps its lists apart",
  "The storage that all listeners share behaves like independent lists of wakers: adding, updating, removing and waking in one list never loses, duplicates or moves an entry of another. "
  "Freed places are reused without confusion, and a list can be deleted exactly when it is empty.",
  ["histories"], "all sequences of operations on several lists, including reuse of freed places",
  "Linked lists through slots of one array: errors show only after particular removals and reuse.",
  [UT + "wakers_arena.rs"], [("doubly linked lists in a slab", UT + "wakers_arena.rs")]),
 ("C14", "a change to data or to anything containing it reaches its listeners",
  "A listener for changes of some data in a store is woken, and its next poll reports a change, whenever that data or any data that contains it is mutably borrowed and the borrow ends. "
  "It does not matter through which sequence of fields, variants, indices or keys, or through which of the mutating operations, the data is reached.",
  ["histories", "inputs"], "all pairs of paths in the store, all mutating operations, all histories of polls and drops",
  "There are as many cases as pairs of paths; tests sample a few in one shape.",
  [BOW + "hash_visitor.rs", BOW + "hash.rs", BOW + "until_change.rs", BOW + "wakers.rs", BOW + "borrow_mut_guard.rs", BOW + "path_ext.rs"],
  [("path hashing", BOW + "hash_visitor.rs"), ("notification on drop", BOW + "borrow_mut_guard.rs")]),
 ("C15", "a change elsewhere does not reach a listener",
  "A listener for changes of some data is not woken and reports nothing when only unrelated data, or only part of what the data contains, is changed. "
  "Reading never notifies anyone.",
  ["histories", "inputs"], "all pairs of unrelated paths, all operations",
  "Absence of a notification must hold for all pairs of paths; tests sample a few.",
  [BOW + "hash_visitor.rs", BOW + "hash.rs", BOW + "path_impl.rs"], [("distinct keys per path", BOW + "hash_visitor.rs")]),
 ("C16", "bubbling listeners hear of changes to the data and its parts",
  "A bubbling listener is woken and reports a change exactly when its data or any part of it, at any depth, is changed, and not when only something containing it or something beside it is.",
  ["histories", "inputs"], "all pairs of paths, all histories",
  "As for ordinary listeners: all pairs of paths matter.",
  [BOW + "hash_visitor.rs", BOW + "until_change.rs", BOW + "borrow_mut_guard.rs"], [("bubbling keys", BOW + "hash_visitor.rs")]),
 ("C17", "a path reads and writes exactly the data it names",
  "Borrowing, reading or setting through a path gives access to exactly the named field, variant, element or entry: what is written there is read back, also through the enclosing data, and everything else keeps its value. "
  "If an optional part is missing the fallible operations say so and change nothing.",
  ["inputs", "programs"], "all paths of a store with structs, enums, options, vectors, maps, boxes; all values",
  "Generated projections exist for every field and variant; tests touch a few.",
  ["x-bow-macros/src/generate.rs", BOW + "path_ext.rs", BOW + "impls/stdlib/vec.rs", BOW + "impls/stdlib/hash_map.rs", BOW + "impls/stdlib/option.rs", BOW + "store.rs"],
  [("generated projections", "x-bow-macros/src/generate.rs"), ("guaranteed and optional access", BOW + "path_ext.rs")]),
 ("C18", "dropping a store listener never disturbs the others",
  "Listeners of a store can be created and dropped in any order, polled or not: the remaining ones keep being woken and keep reporting changes, and nothing panics.",
  ["histories"], "all histories of creating, polling and dropping listeners on equal, nested and unrelated paths",
  "Listeners on related paths share entries that are removed when unused; errors need particular orders of drops.",
  [BOW + "wakers.rs", BOW + "until_change.rs", UT + "wakers_arena.rs"], [("entry removal", BOW + "wakers.rs")]),
 ("C19", "following a value sees its latest state and misses no change",
  "The for-each, async for-each, two-way binding and signal-stream helpers act on the initial value where promised and again after every change, always with the current value; a newer change replaces unfinished work on an older one. "
  "Values coming in through a binding are all written to the data, and the binding does not report its own writes back.",
  ["histories", "schedules"], "all interleavings of changes, polls, unfinished callbacks and incoming items",
  "Interleavings of two streams and a callback's future; the doc tests run one.",
  [BOW + "path_ext/bind_for_each.rs", BOW + "path_ext/for_each.rs", BOW + "path_ext/for_each_async.rs", BOW + "path_ext/signal_stream.rs"],
  [("loops over change streams", BOW + "path_ext/bind_for_each.rs")]),
 ("C20", "a dynamic list shows its items in the order its operations give",
  "After any sequence of inserting, removing, moving, swapping and retaining, rendered or not, the document shows exactly the nodes of the list's items in the list's order, between the nodes before and after the list. "
  "Operations on missing keys change nothing and say so, a replaced or removed item is dropped once, and the return values are right.",
  ["histories", "inputs"], "all sequences of operations with all key choices, before, while and after rendering, with siblings coming and going",
  "The order is kept twice, in a linked structure and in the document; tests would have to try all sequences.",
  [WEB + "lists/dynamic_list.rs"], [("linked order of keys with anchors in the document", WEB + "lists/dynamic_list.rs")]),
 ("C21", "a diffed list shows exactly the keys of its last update",
  "After each update the document shows one item per key of the given sequence, in that order; items whose keys stay are kept alive, not rendered anew, and items whose keys vanish are dropped.",
  ["inputs", "histories"], "all sequences of distinct keys, repeated updates",
  "Every permutation together with insertions and removals is a case.",
  [WEB + "lists/diffed_list.rs"], [("diff against the previous keys", WEB + "lists/diffed_list.rs")]),
 ("C22", "a list bound to a model shows that model",
  "After an update a modelled list shows exactly the items of the model it was given, in order, whether the model was changed by small edits, wholesale, or replaced by another model or a copy. "
  "Items that were only moved are kept alive.",
  ["histories", "inputs"], "all sequences of model operations, any number between updates, copies and other models",
  "The list replays a log of changes; which part of it applies depends on history.",
  [WEB + "lists/modeled_list.rs"], [("change log with versions", WEB + "lists/modeled_list.rs")]),
 ("C23", "a list model behaves like a vector",
  "Every operation of a list model has the effect on its content, and the return value, of the same operation on a plain vector.",
  ["histories", "inputs"], "all sequences of operations with all indices",
  "All sequences and indices; tests do not cover the model.",
  [WEB + "lists/modeled_list.rs"], [("operations", WEB + "lists/modeled_list.rs")]),
 ("C24", "a dynamic slot shows the last future it was given",
  "A dynamic slot shows the nodes of the future that was set last, at the slot's place between its siblings; setting or clearing drops the former one and removes its nodes by the next time the application runs. "
  "A future in the slot that has completed is not polled again.",
  ["histories", "schedules"], "all sequences of setting, clearing, completing, before and while rendering",
  "No test renders a slot.",
  [WEB + "components/dynamic_slot.rs"], [("channel of one message", WEB + "components/dynamic_slot.rs")]),
 ("C25", "a dropdown shows its options in order and knows the selected one",
  "After an update of its options a dropdown contains exactly one option element per key, in the given order; choosing a value, by the user or by the program, makes it the reported one, and choosing none, or one that does not exist, makes the dropdown report none. "
  "Updates keep the elements of options that stay.",
  ["histories", "inputs"], "all sequences of option updates, programmatic and user selections",
  "No test uses the dropdown; order after updates depends on the permutation.",
  [WEB + "components/dropdown.rs"], [("update of options", WEB + "components/dropdown.rs")]),
 ("C26", "select, meanwhile and pend_after behave like the races they stand for",
  "A selection runs the branch of the first future that completes, with its output bound, and drops the others; a future with a side effect completes with its own output however long the effect runs, even if that ended earlier; and a future made to pend runs to its end but never completes. "
  "None is polled after it completed.",
  ["schedules", "programs"], "all completion orders, cancellation at every point",
  "The unit tests never poll them in a particular order.",
  ["async_ui_web_macros/src/select.rs", CB + "extras/mod.rs"], [("generated race and match", "async_ui_web_macros/src/select.rs"), ("pending wrapper", CB + "extras/mod.rs")]),
 ("C27", "a virtualized list renders a consistent range around the viewport",
  "At every moment the items of a virtualized list are a contiguous range in order, without duplicates and within the number of items; after it was woken by scrolling they cover the visible part. "
  "Changing the number of items never leaves items beyond it.",
  ["histories", "inputs"], "all scroll positions, item counts and viewport sizes within bounds",
  "Needs layout; no test covers it.",
  [WEB + "lists/virtualized_list.rs"], [("computation of the visible range", WEB + "lists/virtualized_list.rs")]),
 ("C28", "class shortcuts change exactly the named classes",
  "Adding, removing and setting classes through the shortcuts has the effect the same operations have on the element's class list: named classes are present or absent afterwards, others are unchanged, none is duplicated.",
  ["inputs", "histories"], "all sequences of shortcut calls on all subsets of classes",
  "No test has an element.",
  [WEB + "shortcuts.rs"], [("class list calls", WEB + "shortcuts.rs")]),
 ("C29", "every component and event method stands for the tag or event it names",
  "Each component creates an element with the tag it is documented to have, each input constructor sets the type it is named after, and each event method listens to the event it is named after. Rendering puts that very element in the document.",
  ["programs"], "every component, input constructor and event method",
  "A wrong name among a hundred shows only where it is used; no test creates elements.",
  [HTML + "common_components.rs", HTML + "common_events.rs", HTML + "input_types.rs", HTML + "text_node.rs"],
  [("table of tags", HTML + "common_components.rs"), ("table of events", HTML + "common_events.rs")]),
 ("C30", "the css macro only renames the classes of a style sheet",
  "The style sheet that the css macro hands to the browser is the given text, character by character, with one suffix, the same throughout a sheet and different for different sheets, appended to each class name in the selectors of style rules, including those within media, supports, container and layer blocks. "
  "There is exactly one public constant for each such class, named for it and holding the extended name.",
  ["programs", "inputs"], "all style sheets: selectors, nesting, text in strings, comments and values",
  "Tests compile no style sheet; where a dot starts a class depends on the context.",
  ["async_ui_web_macros/src/css.rs"], [("finding and renaming classes", "async_ui_web_macros/src/css.rs")]),
]
NA = {}
DEFAULT_NA = "no check yet"
TECH = "symbolic execution of the compiled crates (WebAssembly) with z3"


def main():
    ids = [p[0] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(HERE + "/properties.jsonl", "w") as f:
        for i, title, st, over, text, why, files, mech in PROPS:
            assert len(title) <= 80, (i, len(title))
            for x in files + [m[1] for m in mech]:
                assert os.path.exists("/repo/" + x), x
            f.write(json.dumps(dict(
                id=i, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))) + "\n")
    checks, na = [], []
    for i in ids:
        if i in spec.P:
            checks.append(dict(
                property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                technique=TECH, level="model_checking",
                level_note="Every path of the harness over the real code within the bounds, decided by z3; bounds: "
                + spec.P[i]["bounds"] + ". Trusted: the executor, z3, rustc, the DOM model. "
                "Violations are reported only after they reproduced in a native build."))
        else:
            na.append(dict(property=i, reason=NA.get(i, DEFAULT_NA)))
    json.dump(dict(version=1, setup_cmd="python3 check.py C01 --setup", checks=checks, not_applicable=na,
                   notes="No hooks: the harness uses the crates' public API; the browser is replaced by crates in shims/."),
              open(HERE + "/MANIFEST.json", "w"), indent=1)


main()
