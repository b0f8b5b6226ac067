"""Stand-ins for the native modules that cannot be built in this sandbox."""
