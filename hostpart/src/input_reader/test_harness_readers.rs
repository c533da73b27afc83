//! Stand-in: empty.
