"""pyvc: verification-condition generator for the real Python source of metku."""
