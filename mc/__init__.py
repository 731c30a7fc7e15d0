"""Bounded model checking of POT: engine, loader, oracles."""
