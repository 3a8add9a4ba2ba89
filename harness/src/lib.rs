//! Harnesses over the real async_ui crates; see /verif/DESIGN.md.
#![allow(clippy::all)]
pub mod bow;
pub mod cells;
pub mod comb;
pub mod dom;
pub mod events;
pub mod exec;
pub mod lists;
pub mod misc;
pub mod mixed;
pub mod scale;
pub mod tables;
pub mod types;
pub mod virt;
pub mod zoo;
pub mod util;
nd::entries! {
    bow::listen as bow_listen(n, steps, flags);
    bow::places as bow_places(kind);
    bow::deep as bow_deep(n);
    bow::wide as bow_wide(kind, max);
    bow::project as bow_project(steps);
    bow::follow as bow_follow(kind, steps);
    cells::cell as cell_ops(n, steps);
    cells::cell_for_each as cell_for_each(steps);
    cells::arena as arena_ops(lists, pre, steps);
    comb::run as comb_run(kind, shape, n, steps, flags);
    dom::run as dom_run(k, steps, poll_each);
    dom::nested as dom_nested(k, drop_inner);
    dom::chain as dom_chain(min, max, steps);
    dom::wide as dom_wide(n, steps);
    dom::tree as dom_tree(size, depth, steps);
    events::stream as event_stream(n, steps, flags);
    exec::core as exec_core(steps, budget);
    exec::mount as exec_mount(k, steps);
    exec::nested as exec_nested(apps, inner, steps);
    exec::events as exec_events(n, steps);
    exec::spawn as exec_spawn(n, steps);
    lists::dynamic as list_dynamic(keys, init, steps, ops, nodes);
    lists::nested as list_nested(keys, items, inner, steps);
    lists::nested_update as list_nested_update(kind, keys, inner, steps);
    lists::bounds as list_bounds(n);
    lists::diffed as list_diffed(keys, max, updates, nodes, toggle);
    lists::diffed_wide as list_diffed_wide(n, updates);
    lists::modeled_wide as list_modeled_wide(init, max);
    scale::exec as scale_exec(kind, max);
    scale::apps as scale_apps(max);
    scale::events as scale_events(kind, max);
    scale::cell as scale_cell(kind, max);
    scale::comb as scale_comb(kind, max);
    scale::slot as scale_slot(kind, max);
    scale::dropdown as scale_dropdown(n);
    misc::slot as slot(steps, flags);
    misc::slot_nested as slot_nested(max, steps);
    misc::dropdown as dropdown(keys, max, steps, flags);
    misc::classes as classes(steps);
    virt::run as virt_list(steps, flags);
    zoo::run as bow_zoo(group, steps);
    zoo::long as bow_long(n);
    mixed::run as dom_mixed(init, steps);
    tables::run as html_tables();
    types::run as comb_types(kind);
    lists::modeled as list_modeled(init, max, steps, ops, toggle);
}
