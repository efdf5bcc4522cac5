"""Property-based checks for NHERI-SimCenter/pelicun."""
