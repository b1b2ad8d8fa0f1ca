"""symx: symbolic execution of the real gpcm code, decided by Z3."""
