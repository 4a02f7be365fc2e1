#![allow(static_mut_refs, dead_code)]
#[path = "../../core/mod.rs"]
mod core;
#[path = "../../fw/mod.rs"]
mod fw;
mod client;
mod edit;
mod end;
mod gems;
mod soup;
mod index;
mod live;
mod session;
mod smoke;
mod tools;
mod world;

#[global_allocator]
static A: crate::core::alloc::SimAlloc = crate::core::alloc::SimAlloc;

use fw::orch::PropertyPlan;

fn find(n: &str) -> Option<fw::Scenario> {
    Some(match n {
        "smoke" => smoke::smoke,
        "removed_mixin" => edit::removed_mixin,
        "edit" => edit::edit_history,
        "reconf" => edit::reconf,
        "branch" => edit::branch,
        "live" => live::live,
        "end" => end::end,
        "tools" => tools::tools,
        "gems" => gems::gems,
        "typing" => soup::typing,
        "index" => index::index,
        "index_big" => index::index_big,
        _ => return None,
    })
}
const REAL: &[&str] = &["the whole language server: main, tower-lsp transport, tokio and rayon runtimes, handlers, indexer, analysis engine, Prism parser, caches; compiled unmodified", "std::fs, std::process, std::thread, parking_lot: real code down to the libc call"];
const STUB: &[&str] = &["the editor (LSP client over simulated pipes)", "kernel file system (in-memory), pipes, child processes (simulated programs)", "OS thread scheduler, futexes, epoll and clocks (baton scheduler, virtual time)", "Ruby core stubs (a small stub file instead of the shipped archive)"];
const A_LSP: &[&str] = &["preemption only at instrumented control-flow edges of the repository's crates and at system calls", "memory is sequentially consistent (weak-memory reorderings are not explored)", "projects come from a generator of small Ruby files (classes, modules, constants, methods, mixins, references, locals)"];
const RULE_EDIT: &str = "A case is a seed: it fixes a project of 2-5 files, a history of up to 24 operations (open, edit, burst of edits, save, close, discard, outside write, torn outside write, outside delete or create, requests, cancellations, waits, stalled reader), the delays, duplication and batching of file events, message fragmentation and the schedule. In typing, up to 40 replacements of documents by mangled, half-typed or random texts, with requests of any kind at any position. Non-trivial: at least two operations were applied.";
const RULE_INDEX: &str = "A case is a seed: it fixes one to three project folders with 1-5 generated files each (in index_big also 500-1100 tiny ones), their damage (bytes that are not UTF-8, a directory named like a source, zero bytes, syntax garbage, failing open, read or stat), directory order, up to 14 operations during indexing (open, go to definition, status request), message fragmentation, editor reply delays and the schedule. Non-trivial: at least one source file.";
const RULE_RECONF: &str = "A case is a seed: as in the edit histories, plus one to three changes of the Ruby version file, of the configured Ruby version, or a workspace folder leaving and returning after a chosen time, at any place in the history. Non-trivial: at least two operations were applied.";
const RULE_LIVE: &str = "A case is a seed: it fixes a project of 1-3 files, up to 40 operations on its documents (open, edit, burst of edits, request, cancelled request, save, close, pause until quiet, stalled reader) with delays from nothing to seconds, message fragmentation and the schedule. Non-trivial: at least two operations were applied.";
const RULE_BRANCH: &str = "A case is a seed: it fixes a project of 2-5 generated files and up to 200 tiny ones, one to three moments at which another program changes, creates and deletes a tenth to all of them, the order, delay, duplication and grouping of the file events, up to 10 editor operations in between, message fragmentation and the schedule. Non-trivial: at least two operations were applied.";
const RULE_TOOLS: &str = "A case is a seed: it fixes 1-3 documents (some larger than a pipe, with CRLF, non-ASCII text or syntax errors), linter and formatter configuration, up to 30 operations (open, change, save, close, format, quick fix, outline request, pause), and for every run of a tool how it behaves (correct, slow, too slow, missing, not executable, crash, signal, nonsense, not UTF-8, empty, hangs after reading or with its input closed or unread, writes much before reading, ignores its input, reads slowly, floods stderr), and the schedule. Non-trivial: at least one tool run.";
const RULE_END: &str = "A case is a seed: it fixes a project of 1-3 files (plus up to 120 tiny ones), up to 8 editor operations, the moment of the end (during start-up, indexing, requests or silence), how it comes (shutdown and exit, exit alone, hang-up, editor crash with all pipes closed, editor death with the server's input kept open by somebody and its output unread or closed), whether the editor's process may be signalled, pipe capacities and the schedule. Non-trivial: every case.";
const RULE_GEMS: &str = "A case is a seed: it fixes 1-2 projects with Gemfiles and lock files over 1-3 gems (dependencies among them, some not installed, some with files that are not UTF-8, directories, garbage), a Ruby installation with a standard library, and one to three sessions sharing the user's cache directory (to the end, killed or power lost at a chosen write of the cache, failing cache disk, cut off after a chosen time) with changes in between (gem contents, versions, core stubs, projects; cache files flipped, cut, removed, emptied, replaced), then a last session under a random schedule, compared with one without any cache. Non-trivial: at least one earlier session left something in the cache.";
const fn pl(id: &'static str, scenarios: &'static [(&'static str, u32)], rule: &'static str) -> PropertyPlan {
    PropertyPlan { id, scenarios, level: "exploration", rule, assumptions: A_LSP, real: REAL, stub: STUB, quick_s: 40, thorough_s: 1200 }
}
const PLANS: &[PropertyPlan] = &[
    pl("P13", &[("removed_mixin", 1), ("edit", 30), ("typing", 3)], RULE_EDIT),
    pl("P14", &[("live", 1)], RULE_LIVE),
    pl("P15", &[("branch", 1)], RULE_BRANCH),
    pl("P16", &[("removed_mixin", 1), ("edit", 25), ("branch", 5), ("index", 10)], RULE_EDIT),
    pl("P17", &[("edit", 2), ("index", 1), ("live", 1), ("reconf", 1), ("gems", 1), ("typing", 2)], RULE_EDIT),
    pl("P18", &[("index", 3), ("index_big", 1)], RULE_INDEX),
    pl("P19", &[("index", 1)], RULE_INDEX),
    pl("P20", &[("index", 4), ("gems", 1)], RULE_INDEX),
    pl("P21", &[("gems", 1)], RULE_GEMS),
    pl("P22", &[("index", 3), ("index_big", 1)], RULE_INDEX),
    pl("P23", &[("index", 3), ("index_big", 1)], RULE_INDEX),
    pl("P24", &[("end", 1)], RULE_END),
    pl("P25", &[("tools", 1)], RULE_TOOLS),
    pl("P26", &[("reconf", 1)], RULE_RECONF),
];

fn main() {
    fw::orch::main(find, PLANS);
}
