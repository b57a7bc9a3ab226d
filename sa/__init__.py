"""Static analyser for trichter/rf: a gated value-flow analysis over the
Python syntax tree plus the property rules built on it.  Nothing in /repo is
imported or executed."""
