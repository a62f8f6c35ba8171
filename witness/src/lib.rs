//! Programs the compiler must accept or refuse; none is ever run.
