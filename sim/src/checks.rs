//! The properties and their scenarios.
use crate::{api, tools};
use crate::scc::{self, Faults, Mode, P, V};
use simkit::{Check, Ctx, Scenario};

const REAL: &[&str] = &[
    "scc (argument handling and run), scc-lib, redscript-compiler, redscript core and decompiler, redscript-cli: compiled from the working tree",
    "walkdir, std::fs and std::io on top of the simulated system calls",
];
const STUB: &[&str] = &[
    "the operating system below libc: file system, page cache and disk, locks, clock, process ids (in memory, with a durability model)",
    "crates not available offline: peg (macro stand-in compiling the repository's grammar), fd-lock (flock through libc), flexi_logger, toml, normpath, vmap (reads the file), minidl, argh, sequence_trie",
];
const ASSUME: &[&str] = &[
    "an fsync makes the synced file and all earlier metadata changes durable (as journalling file systems do)",
    "a killed process has no further effect; what it wrote stays in the page cache",
];

const ANY: Faults = Faults { errors: true, short: true, kill: true, power: false, most: 2 };
const ERR: Faults = Faults { errors: true, short: true, kill: false, power: false, most: 2 };
const KILL: Faults = Faults { errors: false, short: false, kill: true, power: false, most: 1 };
const POWER: Faults = Faults { errors: false, short: false, kill: false, power: true, most: 1 };
const MIX: &[Mode] = &[Mode::InPlace, Mode::Separate];
const IN: &[Mode] = &[Mode::InPlace];
const CUST: &[Mode] = &[Mode::Custom, Mode::Profile];

fn h(ctx: &mut Ctx, p: P, f: Faults, m: &[Mode]) -> V {
    scc::history(ctx, p, f, m, false)
}

macro_rules! scn {
    ($name:literal, $what:literal, $q:expr, $t:expr, $p:expr, $f:expr, $m:expr) => {
        Scenario { name: $name, what: $what, run: |c| h(c, $p, $f, $m), quick: $q, thorough: $t }
    };
}

fn scc_check(id: &'static str, scenarios: Vec<Scenario>) -> Check {
    Check {
        id,
        rule: "histories of an installation; distinct by the signature of schedule and faults",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        scenarios,
    }
}

pub fn all() -> Vec<Check> {
    vec![
        scc_check("C11", vec![
            scn!("errors", "I/O errors and short transfers", 7500, 60_000, P::Success, ERR, MIX),
            scn!("custom", "the same with a custom cache", 2500, 20_000, P::Success, ERR, CUST),
            scn!("kills", "kills and errors", 5000, 40_000, P::Success, ANY, MIX),
        ]),
        scc_check("C12", vec![
            scn!("kills", "killed at any operation", 7500, 60_000, P::Pristine, KILL, MIX),
            scn!("errors", "I/O errors", 5000, 40_000, P::Pristine, ERR, MIX),
            scn!("power", "power cut at any operation", 5000, 40_000, P::Pristine, POWER, MIX),
            scn!("custom", "a custom cache", 2500, 20_000, P::Pristine, ANY, CUST),
            scn!("custom-power", "a custom cache and power cuts", 1500, 15_000, P::Pristine, POWER, CUST),
        ]),
        scc_check("C13", vec![
            scn!("kills", "killed at any operation", 7500, 60_000, P::Atomic, KILL, MIX),
            scn!("errors", "I/O errors", 5000, 40_000, P::Atomic, ERR, MIX),
            scn!("custom", "a custom cache", 2500, 20_000, P::Atomic, ANY, CUST),
        ]),
        scc_check("C14", vec![
            scn!("kills", "killed at any operation", 7500, 60_000, P::Recover, KILL, MIX),
            scn!("errors", "I/O errors", 5000, 40_000, P::Recover, ERR, MIX),
            scn!("power", "power cut at any operation", 5000, 40_000, P::Recover, POWER, MIX),
            scn!("custom", "a custom cache", 2500, 20_000, P::Recover, ANY, CUST),
            scn!("custom-power", "a custom cache and power cuts", 1500, 15_000, P::Recover, POWER, CUST),
            scn!("plain", "no faults at all", 1500, 10_000, P::Recover, scc::NONE, IN),
        ]),
        scc_check("C15", vec![
            Scenario { name: "clean", what: "undisturbed runs, then power cuts", run: |c| scc::durable(c, scc::NONE, MIX), quick: 5000, thorough: 40_000 },
            Scenario { name: "errors", what: "runs with I/O errors, then power cuts", run: |c| scc::durable(c, ERR, MIX), quick: 5000, thorough: 40_000 },
            Scenario { name: "custom", what: "the same with a custom cache", run: |c| scc::durable(c, ERR, CUST), quick: 1500, thorough: 10_000 },
        ]),
        scc_check("C16", vec![
            Scenario { name: "together", what: "two or three processes", run: |c| scc::concurrent(c, false, false), quick: 7500, thorough: 60_000 },
            Scenario { name: "killed", what: "one of them is killed", run: |c| scc::concurrent(c, true, false), quick: 5000, thorough: 40_000 },
            Scenario { name: "mixed", what: "some on a custom cache", run: scc::concurrent_mixed, quick: 5000, thorough: 40_000 },
            Scenario { name: "custom", what: "on a custom cache", run: |c| scc::concurrent(c, false, true), quick: 2500, thorough: 20_000 },
        ]),
        scc_check("C17", vec![
            Scenario { name: "clean", what: "scripts with errors", run: |c| scc::errors(c, scc::NONE, MIX), quick: 7500, thorough: 60_000 },
            Scenario { name: "errors", what: "scripts with errors and I/O errors", run: |c| scc::errors(c, ERR, MIX), quick: 5000, thorough: 40_000 },
            Scenario { name: "custom", what: "the same with a custom cache", run: |c| scc::errors(c, ERR, CUST), quick: 1500, thorough: 10_000 },
            Scenario { name: "mangled", what: "scripts edited without care", run: |c| scc::mangled(c, scc::NONE, MIX), quick: 15_000, thorough: 200_000 },
            Scenario { name: "mangled-faults", what: "the same with I/O errors", run: |c| scc::mangled(c, ERR, MIX), quick: 2500, thorough: 20_000 },
        ]),
        scc_check("C18", vec![
            Scenario { name: "clean", what: "undisturbed histories", run: |c| scc::scope(c, scc::NONE, MIX), quick: 4000, thorough: 30_000 },
            Scenario { name: "faults", what: "errors and kills", run: |c| scc::scope(c, ANY, MIX), quick: 6000, thorough: 40_000 },
            Scenario { name: "custom", what: "a custom cache", run: |c| scc::scope(c, ANY, CUST), quick: 2500, thorough: 20_000 },
        ]),
        scc_check("C19", vec![
            Scenario { name: "order", what: "directory order, entry types, creation order, clock", run: |c| scc::determined(c, MIX), quick: 7500, thorough: 60_000 },
            Scenario { name: "custom", what: "the same with a custom cache", run: |c| scc::determined(c, CUST), quick: 1500, thorough: 15_000 },
        ]),
        scc_check("C20", vec![
            Scenario { name: "decompile", what: "decompile with I/O errors and short transfers", run: |c| tools::decompile(c, ERR, false), quick: 7500, thorough: 60_000 },
            Scenario { name: "compile", what: "compile with I/O errors and short transfers", run: |c| tools::compile(c, ERR, false), quick: 7500, thorough: 60_000 },
            Scenario { name: "lint", what: "lint with I/O errors and short transfers", run: |c| tools::compile(c, ERR, true), quick: 3500, thorough: 30_000 },
        ]),
        scc_check("C21", vec![
            Scenario { name: "dump", what: "dumps of caches with all kinds of source paths", run: |c| tools::decompile(c, ANY, true), quick: 7500, thorough: 60_000 },
            Scenario { name: "compile", what: "compile, killed or not", run: |c| tools::compile(c, ANY, false), quick: 3500, thorough: 30_000 },
            Scenario { name: "lint", what: "lint, killed or not", run: |c| tools::compile(c, ANY, true), quick: 2500, thorough: 20_000 },
        ]),
        scc_check("C22", vec![
            Scenario { name: "clean", what: "undisturbed histories through the C interface", run: |c| api::histories(c, scc::NONE, MIX), quick: 5000, thorough: 40_000 },
            Scenario { name: "errors", what: "the same with I/O errors", run: |c| api::histories(c, ERR, MIX), quick: 5000, thorough: 40_000 },
            Scenario { name: "custom", what: "the same with a custom cache", run: |c| api::histories(c, ERR, CUST), quick: 2000, thorough: 20_000 },
        ]),
        scc_check("C23", vec![
            Scenario { name: "clean", what: "mods come and go, the game is played after every run", run: |c| scc::effects(c, scc::NONE, MIX), quick: 5000, thorough: 40_000 },
            Scenario { name: "faults", what: "the same with errors and kills", run: |c| scc::effects(c, ANY, MIX), quick: 4000, thorough: 30_000 },
            Scenario { name: "custom", what: "the same with a custom cache", run: |c| scc::effects(c, ERR, CUST), quick: 1000, thorough: 10_000 },
        ]),
        scc_check("C24", vec![
            Scenario { name: "clean", what: "mods of declarations come and go, the output is searched for them after every run", run: |c| scc::declared(c, scc::NONE, MIX), quick: 7000, thorough: 60_000 },
            Scenario { name: "faults", what: "the same with errors and kills", run: |c| scc::declared(c, ANY, MIX), quick: 3000, thorough: 25_000 },
            Scenario { name: "custom", what: "the same with a custom cache", run: |c| scc::declared(c, ERR, CUST), quick: 1000, thorough: 10_000 },
        ]),
    ]
}
