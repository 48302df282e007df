"""Stand-in for pyDelphin, which is not installed."""
