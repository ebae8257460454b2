//! C21: the program as a library, to be compiled for targets without an operating system
#![no_std]
include!("work.rs");
