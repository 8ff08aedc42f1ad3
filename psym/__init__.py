"""psym: a small symbolic executor for the real psion sources (see DESIGN.md)."""
