"""Runtime-verification machinery for aimclub/SAMPO (see /verif/DESIGN.md)."""
