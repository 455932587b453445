"""Runtime-monitoring harness for LSDOlab/omtools (see /verif/DESIGN.md)."""
