"""Runtime-monitoring harness for phonopy/phono3py."""
