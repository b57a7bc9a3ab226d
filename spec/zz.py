def a(xs):
    out = []
    for x in xs:
        if x.bad:
            break
        out.append(x.y)
    return out
def b(xs):
    out = []
    for x in xs:
        if x.bad:
            continue
        out.append(x.y)
    return out
def c(xs):
    n = 0
    for x in xs:
        if x.bad:
            break
        n += x.y
    return n
def d(xs):
    for x in xs:
        if x.bad:
            return
        yield x
