"""Static analysis of the kcorrect sources (abstract interpretation over value-flow graphs)."""
