"""Independent readers and reference algorithms used by the checks."""
