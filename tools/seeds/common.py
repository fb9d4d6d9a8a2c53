"""Format of the seed specifications: S(id, property, edits, demo, needs, breaks)
edits: list of (file, old, new); demo: body of fn main (Rust)."""
SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
