"""Reference and drivers of the processing history (C29)."""


def record(_func_, *args, **kwargs):
    return _func_(*args, **kwargs)


def call(style, recorder, op, *args, **kwargs):
    if style == 'decorator':
        return recorder(op, *args, **kwargs)
    return recorder(op)(*args, **kwargs)


def moveout(style, recorder, op, stream, phase, ref, model):
    return call(style, recorder, op, stream, phase, ref, model)


def moveout_keywords(style, recorder, op, stream, phase, ref, model):
    return call(style, recorder, op, stream, model=model, phase=phase,
                ref=ref)


def no_arguments(style, recorder, op, stream):
    return call(style, recorder, op, stream)


def one_argument(style, recorder, op, stream, first):
    return call(style, recorder, op, stream, first)


def keywords(style, recorder, op, stream, given):
    return call(style, recorder, op, stream, other_option=given)


def profile(style, recorder, op, stream, boxes, crs):
    return call(style, recorder, op, stream, boxes, crs)
