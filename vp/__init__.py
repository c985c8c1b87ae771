"""Runtime-monitoring framework for garciparedes/jinete."""
