//! Contracts for shard-ecs, discharged by Kani (CBMC) against the code in /repo.
//!
//! Every harness is one proof obligation set: `kani::assume` states the precondition of the function
//! under contract, the call executes the code of /repo, `assert!` states the postcondition.
//! Quantified postconditions ("for every other entity ...") are stated at a nondeterministic
//! (skolem) witness, quantified preconditions are assumed at the finitely many instances used.
#![allow(dead_code, clippy::all)]
#![cfg(kani)]

#[macro_use]
mod common;
mod arch;
mod desc;
mod enc;
mod ent;
mod hash;
