//! Stand-in for `pallet-treasury`: only benchmarks of the repository name it.
#![no_std]
