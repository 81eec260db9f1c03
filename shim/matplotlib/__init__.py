"""Stand-in: plots are not shown."""
