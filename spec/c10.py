"""Reference for C10: groups of associated components."""
from rf.util import IterMultipleComponents


def groups(stream, key, allowed):
    members = {}
    for tr in stream:
        name = (tr.id[:-1], None if key is None else str(tr.stats[key]))
        if name not in members:
            members[name] = stream.__class__()
        members[name].append(tr)
    out = []
    for name in sorted(members):
        n = len(members[name])
        if allowed is None:
            out.append(members[name])
        elif isinstance(allowed, int):
            if n == allowed:
                out.append(members[name])
        elif n in allowed:
            out.append(members[name])
    return out


def drive(stream, key, number):
    it = IterMultipleComponents(stream, key=key, number_components=number)
    return [group for group in it], len(it)


def result(stream, key, number):
    g = groups(stream, key, number)
    return g, len(g)


def drive_defaults(stream):
    it = IterMultipleComponents(stream)
    return [group for group in it], len(it)


def defaults(stream):
    g = groups(stream, None, None)
    return g, len(g)


def drive_twice(stream, key):
    """iterating does not use the groups up"""
    it = IterMultipleComponents(stream, key)
    first = [group for group in it]
    second = [group for group in it]
    return first, second


def twice(stream, key):
    g = groups(stream, key, None)
    return g, g
