"""Runtime monitors for hyperpack: workloads, event recorders and oracles."""
