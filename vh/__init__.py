"""Property-based verification harness for openAMUNDSEN."""
