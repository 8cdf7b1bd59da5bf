"""Things the drivers share."""


def s32(v):
    """A word, as TLC has it"""
    v = int(v)
    if not 0 <= v < 1 << 32:
        raise ValueError('not a word: %r' % v)
    return v - (1 << 32) if v >> 31 else v


def u32(v):
    return v & 0xffffffff


def num(v):
    """A number the code gave (it may be a numpy one or a float) that has to be a whole one"""
    i = int(v)
    if i != v:
        raise ValueError('not a whole number: %r' % v)
    if not -(1 << 31) <= i < 1 << 31:
        raise ValueError('out of range: %r' % v)
    return i


def spoil(x):
    """What a user may do with what was given: alters lists, dictionaries and matrices, all through"""
    if isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        if x and not isinstance(x[0], (list, dict, tuple)):
            x[0] = None
        x[1:] = []
    elif hasattr(x, 'fill') and hasattr(x, 'shape'):
        x.fill(-7)


def raised(f, *args, **kw):
    """(result, whether it raised)"""
    try:
        return f(*args, **kw), False
    except Exception:
        return None, True
