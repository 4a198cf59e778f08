"""One module per property."""
