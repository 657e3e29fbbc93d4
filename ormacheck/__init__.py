"""ormacheck: source-level value-graph analysis for ORMATEX (see /verif/DESIGN.md)."""
