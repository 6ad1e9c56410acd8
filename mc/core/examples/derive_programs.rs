//! The programs of C49 (src/refuse.rs), one per line
include!(env!("MC_PROGRAMS"));
