"""Stand-in: pykep imports heyoka only for its type conversions, which the stand-in extension registers itself."""
