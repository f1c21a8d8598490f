"""eckit::Stream model: ghost token sequences (filled in later)."""


def stream_op(ex, e, f, op):
    return NotImplemented
