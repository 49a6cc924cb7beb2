//! Inlining of functions without a contract (filled in by render).
