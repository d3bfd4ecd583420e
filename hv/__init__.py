"""Runtime-monitoring harness for hera_pspec (see /verif/DESIGN.md)."""
