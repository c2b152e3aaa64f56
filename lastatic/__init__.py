"""Static analyser for the `la` package (see ../DESIGN.md)."""
