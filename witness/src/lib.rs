//! Programs that must (ok_*) or must not (no_*) type-check. None is run.
