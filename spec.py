"""Which runs of the symbolic executor decide which property."""


def J(entry, *args, c=(), samples=16):
    return dict(entry=entry, args=list(args), covers=list(c), samples=samples)


COMMON = [
    "the wasm32 build of the crates (rustc 1.99.0, opt-level 2, overflow and debug assertions on) has the meaning of "
    "the source; natively re-run sample paths and every reported violation check this",
    "wasm-bindgen, js-sys, web-sys and instant are replaced by a model of the DOM (shims/), written from the DOM "
    "standard for the calls the crates make; code that only runs in a browser beyond these calls is outside",
    "single threaded, as in the browser",
    "the executor (engine/), z3 4.8.12 and the rust toolchain are trusted",
]
JOIN, RACE, TRY, ROK = 0, 1, 2, 3
TUP, ARR, VEC = 0, 1, 2
_cc = {JOIN: [1, 3], RACE: [2, 3], TRY: [1, 2, 3], ROK: [1, 2, 3]}


def comb(kinds, wide=True, deep=False):
    v = []
    for k in kinds:
        for s in (TUP, ARR, VEC):
            v.append(J("comb_run", k, s, 2, 5 if deep else 4, 3, c=_cc[k]))
            v.append(J("comb_run", k, s, 3, 5 if deep else 4, 3 if deep else 1, c=_cc[k]))
            v.append(J("comb_run", k, s, 3, 7 if deep else 5, 2, c=_cc[k]))
            v.append(J("comb_run", k, s, 4, 5 if deep else 4, 0, c=_cc[k]))
            v.append(J("comb_run", k, s, 2, 4, 18, c=_cc[k] + [5]))
            v.append(J("comb_run", k, s, 3, 4, 18 if deep else 16, c=_cc[k] + [5]))
        v.append(J("comb_run", k, ARR, 1, 4, 3, c=_cc[k]))
        v.append(J("comb_run", k, VEC, 1, 4, 3, c=_cc[k]))
        v.append(J("comb_run", k, TUP, 1, 4, 3, c=_cc[k]))
        for s in (TUP, ARR, VEC) if k == JOIN else (ARR, VEC):
            v.append(J("comb_run", k, s, 0, 3, 2, c=[3] if k == RACE else [1, 3]))
        v.append(J("comb_types", k, c=[1, 2]))
        t = 12 if k in (JOIN, RACE) else 11
        for n in range(5, t + 1):
            v.append(J("comb_run", k, TUP, n, 5 if deep else 4, 4, c=_cc[k], samples=8 if n == t else 4))
        if wide:
            v += [J("scale_comb", k + 4 * i, 300, c=[1], samples=4) for i in range(3)]
            for s in (ARR, VEC):
                v.append(J("comb_run", k, s, 66, 4 if deep else 3, 4, c=_cc[k], samples=4))
                v.append(J("comb_run", k, s, 130, 5 if deep else 4, 4, c=_cc[k], samples=4))
        if deep:
            v.append(J("comb_run", k, VEC, 5, 6, 0, c=_cc[k]))
            v.append(J("comb_run", k, ARR, 4, 5, 1, c=_cc[k]))
            v.append(J("comb_run", k, TUP, 4, 5, 1, c=_cc[k]))
    return v


def flag(f, jobs):
    """the same runs with an additional flag in the last argument"""
    return [dict(j, args=j["args"][:-1] + [j["args"][-1] | f]) if j["entry"] == "comb_run" else j for j in jobs]


_comb_bounds = (
    "subfutures: tuples of every size, arrays of 0-4, 66 and 130, vectors of 0-5, 66 and 130; quick: up to 5 steps "
    "(wake a subfuture, poll, drop) for up to 3 subfutures, 4 for 4; thorough: up to 7; each poll of a subfuture "
    "completes or not, succeeds or fails, wakes itself or not; in some runs subfutures also wake each other, up to twice, while "
    "polled or dropped; in combinators wider than 4, three of the subfutures are "
    "free and the others all finish at once or never do; outputs of five types (no size, one byte, aligned to 32, boxed, "
    "optional) in vectors, arrays and tuples of up to 3; pairs of subfutures of which one is woken up to 300 times first"
)


def held(steps, each=0):
    v = [J("dom_run", k, steps, each, c=c) for k, c in ((18, [1, 5]), (19, [1, 5]), (20, [1, 5]), (21, [5]))]
    v += [J("dom_run", k, steps, each, c=c) for k, c in ((22, [1, 2, 5]), (23, [1, 5]), (24, [1, 5]), (25, [1, 5]))]
    return v


def portals(steps):
    return [J("dom_run", k, steps, 0, c=c) for k, c in ((14, [1, 2, 3]), (15, [2, 3]), (16, [2]), (17, [2]))]


def dom(deep):
    v = []
    # cover 2 (everything finishes) needs more steps in the large structures
    need = {k: [1, 2] for k in range(14)}
    for k in (5, 6, 8, 10):
        need[k] = [1, 2, 3]
    need[11] = [2, 3]
    need[12] = [1]
    slow = (3, 9, 10, 12)
    for k in range(14):
        if k == 12:
            v.append(J("dom_run", k, 4, 0 if deep else 1, c=need[k]))
            v.append(J("dom_run", k, 3, 0, c=need[k]))
            continue
        v.append(J("dom_run", k, 4, 0, c=need[k]))
        if deep and k not in slow:
            v.append(J("dom_run", k, 5, 0, c=need[k]))
        if deep:
            v.append(J("dom_run", k, 6 if k not in slow else 5, 1, c=need[k]))
    v += portals(4 if deep else 3)
    v += held(3)
    if deep:
        v += held(4, 1)
    v.append(J("dom_nested", 14, 2, c=range(1, 15)))
    v.append(J("dom_tree", 3, 3, 3 if deep else 2, c=[1, 2, 3]))
    v.append(J("dom_chain", 4, 10, 2, c=[1, 2, 4]))
    v.append(J("list_dynamic", 3, 2, 3, 255, 1, c=[1, 2, 3, 4, 5, 6, 7, 8]))
    v.append(J("list_dynamic", 3, 2, 3, 4351, 1, c=[1, 2, 3, 4, 5, 6, 7, 8, 16]))
    v.append(J("list_dynamic", 24, 22, 2, 6399, 1, c=[1, 2, 3, 4, 5, 6, 7, 8, 16], samples=4))
    v.append(J("list_dynamic", 2, 2, 3, 4351, 6, c=[1, 2, 3, 4, 5, 6, 7, 8, 16]))
    v.append(J("list_dynamic", 2, 2, 2, 4111, 300, c=[1, 2, 3, 4, 16], samples=4))
    v.append(J("dom_wide", 12, 2, c=[1, 4]))
    v.append(J("dom_wide", 70, 2, c=[1, 4]))
    v.append(J("dom_wide", 300, 1, c=[1, 4], samples=4))
    v.append(J("dom_mixed", 2, 2, c=[1, 2, 3, 4, 5, 6]))
    v.append(J("dom_mixed", 1, 3, c=[1, 2, 3, 4, 5, 6]))
    if deep:
        v.append(J("dom_mixed", 2, 3, c=[1, 2, 3, 4, 5, 6]))
        v.append(J("dom_tree", 4, 3, 2, c=[1, 2, 3]))
        v.append(J("dom_tree", 3, 4, 3, c=[1, 2, 3]))
        v.append(J("dom_chain", 4, 12, 3, c=[1, 2, 4]))
        v.append(J("dom_wide", 300, 2, c=[1, 2, 4], samples=4))
    return v


_dom_bounds = (
    "26 structures of containers, joins, races and sequences (four with contents shown in another element, eight with parts in a list or slot that are moved or removed) with up to 5 leaves, every such structure with 3 leaves and "
    "depth up to 3 (thorough: 4 leaves; depth 4), chains of 4 to 10 (12) nested combinators, joins and races of 70 and 300 "
    "futures of which three at symbolic places are active, and 14 statically nested ones; up to 4 (6; chains and wide ones: "
    "1 to 3) commands to leaves (show or hide a node, finish), polled after each or in batches; dynamic lists of 2 and of 22 "
    "items between siblings, on their own and inside an element, with up to 3 operations; lists of up to 2 items that hold "
    "lists and slots (a slot can hold a list), rendered in two places or nowhere, with 2 to 3 operations on all of them"
)
_bow = dict(
    quick=[
        J("bow_listen", 1, 1, 2, c=[1, 2]),
        J("bow_listen", 1, 2, 8, c=[1, 2, 3]),
        J("bow_listen", 1, 2, 0, c=[1, 2, 3]),
        J("bow_listen", 1, 2, 10, c=[1, 2, 3]),
        J("bow_listen", 3, 4, 9, c=[1, 2, 3, 4]),
        J("bow_listen", 2, 4, 13, c=[1, 2, 3, 4]),
        J("bow_listen", 2, 5, 9, c=[1, 2, 3, 4]),
        *(J("bow_places", k, c=[1, 2]) for k in range(5)),
        *(J("bow_deep", k, c=[1, 2]) for k in (6, 70, 133)),
        *(J("bow_wide", k, n, c=[1] if k != 2 else [1, 2, 3]) for k, n in ((0, 300), (1, 300), (2, 20), (2, 70), (3, 70))),
        J("bow_zoo", 0, 1, c=[1, 2, 3, 4]),
        J("bow_zoo", 1, 1, c=[1, 2, 4]),
        J("bow_long", 300, c=[1, 2, 3]),
    ],
    thorough=[
        *(J("bow_places", k, c=[1, 2]) for k in range(5)),
        *(J("bow_deep", k, c=[1, 2]) for k in (6, 70, 133)),
        *(J("bow_wide", k, n, c=[1] if k != 2 else [1, 2, 3]) for k, n in ((0, 300), (1, 300), (2, 20), (2, 70), (3, 70))),
        J("bow_listen", 1, 1, 2, c=[1, 2]),
        J("bow_listen", 1, 2, 0, c=[1, 2, 3]),
        J("bow_listen", 1, 2, 10, c=[1, 2, 3]),
        J("bow_listen", 3, 4, 9, c=[1, 2, 3, 4]),
        J("bow_listen", 2, 5, 9, c=[1, 2, 3, 4]),
        J("bow_listen", 3, 5, 13, c=[1, 2, 3, 4]),
        J("bow_listen", 3, 3, 11, c=[1, 2, 3]),
        J("bow_listen", 1, 3, 0, c=[1, 2, 3, 4]),
        J("bow_zoo", 0, 1, c=[1, 2, 3, 4]),
        J("bow_zoo", 1, 1, c=[1, 2, 4]),
        J("bow_long", 300, c=[1, 2, 3]),
    ],
    bounds="a store with 41 paths through structs, enums, Option, Vec, HashMap, Box, Rc, tuples; up to 3 listeners, up to "
    "5 steps (listen, poll, drop, mutate a path through any of the mutating operations); pairs of paths differing in one of 15 indices or keys, 12 "
    "strings, 30 fields or three nested steps; paths of up to 12 segments, and up to 266 segments at chosen lengths; "
    "another store of derived enums, structs and generic types with skipped and shallow fields, and of tuples of all sizes, "
    "with one listener and one change through differently wrapped paths; "
    "a Vec and a map of 300 elements with two indices or keys at and around powers of two; "
    "up to 300 changes in a row, 20 and 70 listeners, 70 listeners one after another",
    assume=["x-bow's 64-bit path hashes do not collide on the paths used"],
)

P = {
    "C01": dict(quick=comb([JOIN, TRY]), thorough=comb([JOIN, TRY], deep=True), bounds=_comb_bounds),
    "C02": dict(quick=comb([RACE, TRY, ROK]), thorough=comb([RACE, TRY, ROK], deep=True), bounds=_comb_bounds),
    "C03": dict(
        quick=comb([JOIN, RACE, TRY, ROK]) + [J("dom_run", 13, 4, 0, c=[1, 2])],
        thorough=comb([JOIN, RACE, TRY, ROK], deep=True) + dom(True),
        bounds=_comb_bounds,
    ),
    "C04": dict(quick=comb([JOIN, RACE, TRY, ROK]), thorough=comb([JOIN, RACE, TRY, ROK], deep=True), bounds=_comb_bounds),
    "C05": dict(
        quick=flag(8, comb([JOIN, RACE, TRY, ROK])),
        thorough=flag(8, comb([JOIN, RACE, TRY, ROK], deep=True)),
        bounds=_comb_bounds + "; after the end the remaining wakers are cloned and woken, then all woken by value or all dropped",
    ),
    "C06": dict(quick=dom(False), thorough=dom(True), bounds=_dom_bounds),
    "C07": dict(quick=dom(False), thorough=dom(True), bounds=_dom_bounds),
    "C08": dict(quick=dom(False), thorough=dom(True), bounds=_dom_bounds),
    "C09": dict(
        quick=[
            J("exec_mount", 5, 3, c=[1, 2, 3, 4]),
            J("exec_nested", 3, 3, 4, c=[1, 2, 3, 4, 6, 7, 8]),
            J("scale_apps", 20, c=[0, 1]),
            *portals(3),
        ],
        thorough=[
            J("exec_mount", 5, 3, c=[1, 2, 3, 4]),
            J("exec_mount", 5, 4, c=[1, 2, 3, 4]),
            J("exec_nested", 4, 4, 4, c=[1, 2, 3, 4, 6, 7, 8]),
            *portals(4),
            J("scale_apps", 70, c=[0, 1]),
        ],
        bounds="up to 3 (thorough: 4) applications that mount and unmount applications and dispatch events, up to 3 times while polled or "
        "dropped, and 4 such steps from outside; four structures with contents shown in another element, up to 3 (thorough: 4) steps; up to 3 (thorough: 4) steps of mounting one of 5 structures, unmounting, running the executor; 20 (thorough: 70) applications on one node",
    ),
    "C10": dict(
        quick=[
            J("exec_core", 4, 3, c=[1, 2, 3, 4]),
            J("exec_core", 6, 3, c=[1, 2, 3, 4]),
            J("exec_events", 2, 6, c=[1, 2]),
            J("exec_events", 3, 5, c=[1, 2]),
            J("exec_spawn", 2, 6, c=[1, 2, 3]),
            J("exec_mount", 5, 3, c=[1, 2, 3, 4]),
            J("exec_nested", 3, 3, 4, c=[1, 2, 3, 4, 6, 7, 8]),
            *(J("scale_exec", k, n, c=[1]) for k, n in ((0, 300), (1, 300), (2, 300), (3, 300), (4, 70), (5, 300))),
            J("virt_list", 3, 0, c=[1, 2, 3, 4, 5]),
        ],
        thorough=[
            J("exec_core", 5, 4, c=[1, 2, 3, 4]),
            J("exec_core", 6, 3, c=[1, 2, 3, 4]),
            J("exec_events", 2, 6, c=[1, 2]),
            J("exec_events", 3, 9, c=[1, 2]),
            J("exec_spawn", 3, 7, c=[1, 2, 3]),
            J("exec_mount", 5, 3, c=[1, 2, 3, 4]),
            J("exec_nested", 3, 3, 4, c=[1, 2, 3, 4, 6, 7, 8]),
            *(J("scale_exec", k, n, c=[1]) for k, n in ((0, 300), (1, 300), (2, 300), (3, 300), (4, 70), (5, 300))),
            J("virt_list", 3, 0, c=[1, 2, 3, 4, 5]),
        ],
        bounds="scrolling a virtualized list; up to 6 steps (schedule, wake, run, drop) over up to 3 tasks; tasks wake themselves or others up to 3 "
        "times during a run; up to 3 listeners and 6 (thorough: 9) events",
    ),
    "C11": dict(
        quick=[
            J("event_stream", 1, 6, 5, c=[1, 2, 3]),
            J("event_stream", 2, 4, 3, c=[1, 2, 3]),
            J("event_stream", 3, 4, 2, c=[1, 2, 3]),
            J("event_stream", 2, 4, 7, c=[1, 2, 3]),
            J("exec_nested", 3, 3, 4, c=[1, 2, 3, 4, 6, 7, 8]),
            *(J("scale_events", k, n, c=[1]) for k, n in ((0, 300), (1, 70), (2, 70))),
        ],
        thorough=[
            J("event_stream", 1, 7, 5, c=[1, 2, 3]),
            J("event_stream", 2, 4, 7, c=[1, 2, 3]),
            J("event_stream", 3, 5, 2, c=[1, 2, 3]),
            J("event_stream", 2, 5, 3, c=[1, 2, 3]),
            *(J("scale_events", k, n, c=[1]) for k, n in ((0, 300), (1, 70), (2, 70))),
        ],
        bounds="up to 3 streams over 2 targets and 2 event names with every combination of options, up to 6 steps; up to 300 events, 70 streams at once or one after another",
    ),
    "C12": dict(
        quick=[J("cell_ops", 2, 4, c=[1, 2, 3]), J("cell_ops", 1, 6, c=[1, 2, 3]), J("cell_for_each", 7)]
        + [J("scale_cell", k, n, c=[1]) for k, n in ((0, 300), (1, 300), (2, 20), (2, 70))],
        thorough=[
            J("cell_ops", 2, 6, c=[1, 2, 3]),
            J("cell_ops", 3, 5, c=[1, 2, 3]),
            J("cell_ops", 1, 8, c=[1, 2, 3]),
            J("cell_for_each", 9),
            *(J("scale_cell", k, n, c=[1]) for k, n in ((0, 300), (1, 300), (2, 20), (2, 70))),
        ],
        bounds="up to 3 listeners; up to 6 (thorough: 8) steps of borrowing, mutating, polling, dropping; up to 300 changes in a row; 20 and 70 listeners",
    ),
    "C13": dict(
        quick=[
            J("arena_ops", 2, 0, 6, c=[1, 2, 3]),
            J("arena_ops", 3, 3, 5, c=[1, 2, 3, 4]),
            J("arena_ops", 2, 6, 4, c=[1, 2, 3, 4]),
            J("arena_ops", 2, 14, 3, c=[1, 2, 3, 4]),
            J("arena_ops", 2, 40, 2, c=[1, 2, 3, 4]),
        ],
        thorough=[
            J("arena_ops", 2, 0, 7, c=[1, 2, 3]),
            J("arena_ops", 3, 3, 6, c=[1, 2, 3, 4]),
            J("arena_ops", 2, 6, 5, c=[1, 2, 3, 4]),
            J("arena_ops", 2, 14, 3, c=[1, 2, 3, 4]),
            J("arena_ops", 2, 40, 2, c=[1, 2, 3, 4]),
            J("arena_ops", 2, 70, 2, c=[1, 2, 3, 4]),
        ],
        bounds="up to 3 lists, up to 6 earlier entries and up to 6 (thorough: 7) further operations; 14 and 40 (70) entries with 2-3 operations",
    ),
    "C14": _bow,
    "C15": _bow,
    "C16": _bow,
    "C18": _bow,
    "C17": dict(
        quick=[
            J("bow_project", 1, c=[1, 2, 3]),
            J("bow_project", 2, c=[1, 2, 3]),
            J("bow_zoo", 0, 1, c=[1, 2, 3, 4]),
            J("bow_zoo", 1, 1, c=[1, 2, 4]),
            J("bow_long", 300, c=[1, 2, 3]),
        ],
        bounds="every path of the store, up to two mutations by any operation, all scalar values symbolic; another "
        "store of derived enums, structs and generic types with skipped and shallow fields, and of tuples of all sizes, with one read "
        "and one change; a Vec and a map of 300 elements with two indices or keys at and around powers of two",
    ),
    "C19": dict(
        quick=[J("bow_follow", k, 5, c=c) for k, c in enumerate(([1], [1, 2], [1, 2, 3], [1, 2], [1, 2]))],
        thorough=[J("bow_follow", k, 7, c=c) for k, c in enumerate(([1], [1, 2], [1, 2, 3], [1, 2], [1, 2]))],
        bounds="up to 5 (thorough: 7) steps of mutations, polls, completions of the callbacks' futures and stream items",
    ),
    "C20": dict(
        quick=[
            J("list_dynamic", 3, 2, 3, 255, 1, c=[1, 2, 3, 4, 5, 6, 7, 8]),
            J("list_dynamic", 3, 3, 3, 767, 2, c=[1, 2, 3, 4, 5, 6, 7, 8]),
            J("list_dynamic", 24, 22, 2, 2303, 1, c=[1, 2, 3, 4, 5, 6, 7, 8], samples=4),
            J("list_dynamic", 2, 2, 3, 255, 6, c=[1, 2, 3, 4, 5, 6, 7, 8]),
            J("list_dynamic", 2, 2, 2, 15, 300, c=[1, 2, 3, 4], samples=4),
            J("list_nested", 2, 2, 1, 3, c=[1, 2, 3, 4, 5, 6, 10]),
            J("list_nested", 2, 3, 2, 2, c=[1, 2, 3, 4, 5, 6, 10]),
            J("list_bounds", 3, c=[1, 2, 3, 4, 5, 6]),
            J("dom_mixed", 2, 2, c=[1, 2, 3, 4, 5, 6]),
            J("dom_mixed", 1, 3, c=[1, 2, 3, 4, 5, 6]),
        ],
        thorough=[
            J("list_dynamic", 3, 2, 3, 255, 1, c=[1, 2, 3, 4, 5, 6, 7, 8]),
            J("list_dynamic", 3, 3, 3, 767, 2, c=[1, 2, 3, 4, 5, 6, 7, 8]),
            J("list_dynamic", 24, 22, 2, 2303, 1, c=[1, 2, 3, 4, 5, 6, 7, 8], samples=4),
            J("list_dynamic", 2, 2, 3, 255, 6, c=[1, 2, 3, 4, 5, 6, 7, 8]),
            J("list_dynamic", 2, 2, 2, 15, 300, c=[1, 2, 3, 4], samples=4),
            J("list_nested", 2, 2, 1, 3, c=[1, 2, 3, 4, 5, 6, 10]),
            J("list_nested", 2, 3, 2, 2, c=[1, 2, 3, 4, 5, 6, 10]),
            J("list_bounds", 3, c=[1, 2, 3, 4, 5, 6]),
            J("dom_mixed", 2, 2, c=[1, 2, 3, 4, 5, 6]),
            J("dom_mixed", 1, 3, c=[1, 2, 3, 4, 5, 6]),
            J("list_nested", 2, 3, 2, 3, c=[1, 2, 3, 4, 5, 6, 10]),
            J("list_nested", 3, 3, 1, 3, c=[1, 2, 3, 4, 5, 6, 10]),
        ],
        bounds="lists in the items of a list that is rendered in two places or nowhere (up to 2 items; thorough: 3; 3 operations); items that operate on their own list, while polled and when dropped (3 items, 2 such operations); up to 3 keys, 2-3 initial items of up to 2 nodes, 3 further operations, rendered late, unrendered and "
        "rendered again; 22 items and 2 operations at chosen places; 2 items of 6 and of 300 nodes; siblings around the list toggled; one operation on a missing key",
    ),
    "C21": dict(
        quick=[
            J("list_diffed", 4, 4, 2, 2, 1, c=[0, 1, 2, 3, 4]),
            J("list_diffed", 3, 3, 3, 2, 1, c=[0, 1, 2, 3]),
            J("list_diffed", 4, 4, 3, 1, 0, c=[0, 1, 2, 3, 4]),
            J("list_diffed_wide", 70, 1, c=[1], samples=4),
            J("list_diffed_wide", 20, 2, c=[1, 2], samples=4),
            J("list_nested_update", 0, 3, 1, 2, c=[1, 2]),
            J("list_nested_update", 0, 2, 2, 2, c=[1, 2]),
        ],
        thorough=[
            J("list_diffed", 4, 4, 3, 2, 1, c=[0, 1, 2, 3, 4]),
            J("list_diffed", 5, 5, 2, 1, 0, c=[0, 1, 2, 3, 4, 5]),
            J("list_diffed", 3, 3, 4, 1, 1, c=[0, 1, 2, 3]),
            J("list_diffed_wide", 70, 1, c=[1], samples=4),
            J("list_diffed_wide", 70, 2, c=[1, 2], samples=4),
            J("list_nested_update", 0, 3, 1, 2, c=[1, 2]),
            J("list_nested_update", 0, 2, 2, 3, c=[1, 2]),
        ],
        bounds="all sequences of distinct keys up to length 4 (thorough: 5), up to 3 (thorough: 4) updates, items of up to 2 nodes; "
        "20 and 70 keys with ranges reversed, removed, rotated, swapped, replaced or put in between; items that update their own list while polled (up to 3 keys, up to 2 (thorough: 3) steps)",
    ),
    "C22": dict(
        quick=[
            J("list_modeled", 3, 3, 2, 127, 0, c=[1]),
            J("list_modeled", 2, 5, 5, 138, 0, c=[2, 4, 5]),
            J("list_modeled", 2, 4, 4, 394, 1, c=[2, 3, 4, 5]),
            J("list_modeled", 3, 4, 3, 511, 1, c=[1, 2, 3, 4]),
            J("list_modeled", 2, 4, 3, 1535, 3, c=[1, 2, 3, 4]),
            J("list_modeled_wide", 20, 20, c=[1, 2], samples=4),
            J("list_modeled_wide", 3, 40, c=[1, 2], samples=4),
            J("list_nested_update", 1, 2, 1, 2, c=[1, 2]),
            J("list_nested_update", 1, 2, 2, 2, c=[1, 2]),
        ],
        thorough=[
            J("list_modeled", 3, 3, 2, 127, 0, c=[1]),
            J("list_modeled", 2, 5, 5, 138, 0, c=[2, 4, 5]),
            J("list_modeled", 2, 4, 4, 394, 1, c=[2, 3, 4, 5]),
            J("list_modeled", 3, 4, 3, 511, 1, c=[1, 2, 3, 4]),
            J("list_modeled", 2, 4, 3, 1535, 3, c=[1, 2, 3, 4]),
            J("list_modeled_wide", 20, 20, c=[1, 2], samples=4),
            J("list_modeled_wide", 3, 40, c=[1, 2], samples=4),
            J("list_nested_update", 1, 3, 1, 2, c=[1, 2]),
            J("list_nested_update", 1, 2, 2, 3, c=[1, 2]),
        ],
        bounds="models of up to 4 items, up to 3 operations with or without an update after each, clones and other models, "
        "first rendering before or after; 3 and 20 items with up to 40 changes in seven patterns before an update; items that update their own list while polled",
    ),
    "C23": dict(
        quick=[J("list_modeled", 3, 4, 3, 511, 1, c=[1, 2, 3, 4]), J("list_modeled_wide", 20, 20, c=[1, 2], samples=4), J("list_bounds", 3, c=[1, 2, 3, 4, 5, 6])],
        bounds="models of up to 4 items, up to 3 operations, all indices symbolic; 20 items with up to 20 changes; one operation out of bounds",
    ),
    "C24": dict(
        quick=[
            J("slot_nested", 4, 3, c=range(6)),
            J("slot", 5, 1, c=[1, 2, 3, 4, 5]),
            J("slot", 4, 7, c=[1, 2, 3, 4, 5]),
            J("slot", 4, 6, c=[1, 2, 3, 4]),
            J("slot", 5, 0, c=[1, 2, 3, 4]),
            *(J("scale_slot", k, 300, c=[1], samples=4) for k in (0, 1)),
            J("dom_mixed", 2, 2, c=[1, 2, 3, 4, 5, 6]),
        ],
        thorough=[
            J("slot_nested", 5, 4, c=range(6)),
            J("slot", 6, 1, c=[1, 2, 3, 4, 5]),
            J("slot", 5, 7, c=[1, 2, 3, 4, 5]),
            J("slot", 5, 6, c=[1, 2, 3, 4]),
            J("slot", 6, 0, c=[1, 2, 3, 4]),
            *(J("scale_slot", k, 300, c=[1], samples=4) for k in (0, 1)),
            J("dom_mixed", 2, 3, c=[1, 2, 3, 4, 5, 6]),
        ],
        bounds="slots in items of a list, with a list in the slot; up to 5 (thorough: 6) steps of setting a future of one or two nodes, clearing, changing or completing the "
        "current one, polling for no reason or with another waker, changing siblings; run after each or in batches; contents that set or clear the slot while polled and when dropped; up to 300 futures in a row",
    ),
    "C25": dict(
        quick=[
            J("dropdown", 3, 3, 3, 0, c=[1, 3, 4, 5, 6]),
            J("dropdown", 4, 4, 2, 0, c=[4, 5, 6]),
            J("dropdown", 3, 2, 4, 0, c=[1, 3, 4, 5, 6]),
            J("dropdown", 2, 2, 3, 1, c=[1, 3, 4, 5, 6]),
            J("dropdown", 3, 3, 2, 1, c=[4, 5, 6]),
            *(J("scale_dropdown", n, c=[1, 2], samples=4) for n in (20, 70)),
        ],
        thorough=[
            J("dropdown", 4, 4, 3, 0, c=[1, 3, 4, 5, 6]),
            J("dropdown", 5, 5, 2, 0, c=[4, 5, 6]),
            J("dropdown", 3, 3, 4, 0, c=[1, 3, 4, 5, 6]),
            J("dropdown", 2, 2, 4, 1, c=[1, 3, 4, 5, 6]),
            J("dropdown", 3, 3, 2, 1, c=[4, 5, 6]),
            *(J("scale_dropdown", n, c=[1, 2], samples=4) for n in (20, 70)),
        ],
        bounds="up to 4 (thorough: 5) distinct keys, up to 4 steps of updating the options to any sequence of distinct keys "
        "with any of three texts (one empty), setting a present or absent value or none, selection by the user; 20 and 70 options",
    ),
    "C26": dict(
        quick=[
            J("comb_run", 4, 0, 2, 6, 3, c=[2, 3]),
            J("comb_run", 4, 0, 3, 5, 3, c=[2, 3]),
            J("comb_run", 4, 0, 4, 5, 1, c=[2, 3]),
            J("comb_run", 5, 0, 2, 6, 3, c=[2, 3, 4]),
            J("comb_run", 6, 0, 1, 7, 3, c=[3, 4]),
            J("comb_run", 7, 0, 2, 6, 3, c=[1, 3]),
            J("comb_run", 4, 0, 2, 5, 18, c=[2, 3, 5]),
            J("comb_run", 4, 0, 3, 4, 16, c=[2, 3, 5]),
            J("comb_run", 5, 0, 2, 5, 18, c=[2, 3, 4, 5]),
            J("comb_run", 6, 0, 1, 6, 18, c=[3, 4, 5]),
            J("comb_run", 7, 0, 2, 5, 16, c=[1, 3, 5]),
        ],
        thorough=[
            J("comb_run", 4, 0, 2, 8, 3, c=[2, 3]),
            J("comb_run", 4, 0, 3, 7, 3, c=[2, 3]),
            J("comb_run", 4, 0, 4, 6, 3, c=[2, 3]),
            J("comb_run", 5, 0, 2, 8, 3, c=[2, 3, 4]),
            J("comb_run", 6, 0, 1, 9, 3, c=[3, 4]),
            J("comb_run", 7, 0, 2, 7, 3, c=[1, 3]),
            J("comb_run", 4, 0, 2, 6, 18, c=[2, 3, 5]),
            J("comb_run", 4, 0, 3, 5, 16, c=[2, 3, 5]),
            J("comb_run", 5, 0, 2, 6, 18, c=[2, 3, 4, 5]),
            J("comb_run", 6, 0, 1, 7, 18, c=[3, 4, 5]),
            J("comb_run", 7, 0, 2, 6, 16, c=[1, 3, 5]),
        ],
        bounds="selections of 2, 3 and 4 branches (one nested, one over borrowed futures, patterns and awaits in branches), "
        "meanwhile of two futures, pend_after; up to 7 (thorough: 9) steps (wake a subfuture, poll, change the waker, drop)",
    ),
    "C27": dict(
        quick=[
            J("virt_list", 4, 0, c=[1, 2, 3, 4, 5]),
            J("virt_list", 3, 4, c=[1, 2, 3, 4, 5]),
            J("virt_list", 4, 6, c=[1, 2, 3, 4, 5]),
            J("virt_list", 4, 2, c=[1, 2, 3, 4, 5]),
            J("virt_list", 3, 8, c=[1, 2, 3, 4, 5, 6]),
        ],
        thorough=[
            J("virt_list", 5, 0, c=[1, 2, 3, 4, 5]),
            J("virt_list", 4, 4, c=[1, 2, 3, 4, 5]),
            J("virt_list", 5, 6, c=[1, 2, 3, 4, 5]),
            J("virt_list", 4, 8, c=[1, 2, 3, 4, 5, 6]),
            J("virt_list", 3, 14, c=[1, 2, 4, 5, 6]),
        ],
        bounds="a viewport of 100 px, or of 0, 30, 100 or 250 px and resized between (3 steps), items of 20, 25, 50 or 140 px, up to 60 items; up to 4 (thorough: 5) steps of setting the "
        "number of items (6 values) and scrolling (5 positions), before and while rendering; vertical only (the other "
        "direction cannot be chosen through the public API); layout in floating point, with concrete values on each path",
        assume=["intersection observers fire until the layout is at rest", "scroll positions are clamped to the content"],
    ),
    "C28": dict(
        quick=[J("classes", 3, c=[1, 2, 3, 4, 5])],
        bounds="two elements, four class names, up to 3 calls of the seven shortcuts with any arguments (lists of up to 2, with "
        "duplicates)",
    ),
    "C29": dict(
        quick=[J("html_tables", c=[1, 2], samples=64)],
        bounds="all 64 components, 22 input constructors and 42 event methods that exist at the time of writing, custom "
        "elements, text nodes and str with a handful of texts",
    ),
    "C30": dict(
        crate="css",
        quick=[
            J("css_selectors", 2, 1, c=[1, 2]),
            J("css_selectors", 1, 3, c=[1, 2]),
            J("css_rules", 1, 1, 1, c=[1, 2]),
            J("css_rules", 1, 2, 0, c=[1, 2]),
            J("css_rules", 3, 0, 0, c=[1]),
            J("css_text", 0, 2, c=[1, 2]),
            J("css_text", 1, 2, c=[1, 2]),
            J("css_text", 2, 2, c=[1]),
            J("css_text", 3, 2, c=[1, 2]),
            J("css_text", 4, 2, c=[1]),
            J("css_text", 5, 2, c=[1, 2]),
        ],
        thorough=[
            J("css_selectors", 3, 1, c=[1, 2]),
            J("css_selectors", 2, 2, c=[1, 2]),
            J("css_rules", 2, 1, 0, c=[1, 2]),
            J("css_rules", 2, 0, 1, c=[1]),
            J("css_rules", 1, 2, 1, c=[1, 2]),
            J("css_rules", 1, 3, 0, c=[1, 2]),
        ] + [J("css_text", p, 3, c=[1]) for p in (0, 1, 3, 5)],
        bounds="style sheets of a grammar: selectors of up to 2 (thorough: 3) of 16 kinds of pieces, functional pseudo-classes "
        "nested up to 3 deep; up to 3 rules of 11 kinds, at-rules (also with capitals in their names) nested up to 2 (thorough: 3) deep, 8 kinds of declarations; any two "
        "(thorough: three) printable ASCII characters in strings, comments, custom properties, attribute selectors and urls. "
        "Outside: classes written with escapes, nested style rules, at-rules other than media, "
        "supports, container, layer, and comments between the dot and the name",
        assume=["in this check the compiler's token stream is proc-macro2's own implementation of it, and the script in the "
                "expansion is read by the harness's reader of JavaScript string literals"],
    ),
}
