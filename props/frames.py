"""Shared by the harnesses on frames: what the format says, by itself."""

from props.util import SIZE, kind

# id, type, timestamp and count, then the checksum
HEAD = 2 + 1 + 8 + 4
CRC = 4


def drain(queue):
    """Everything in a queue, in order."""
    out = []
    while not queue.empty():
        out.append(queue.get(False))
    return out


def millis(cx, time):
    """The integer that stands for a time (exact for the times used here)."""
    return int(time * 1000)


def ms_time(cx, name, low=0, high=2**41):
    """Any time with the exact encoding; a multiple of 1/8 of a second."""
    return cx.fix(name, 3, low, high)


def ms_of(time8):
    """Milliseconds of a multiple of 1/8 s."""
    return time8 * 1000


def raw_of(frame):
    """The bytes of a finalized frame."""
    data, size = frame.raw
    return data, size


def same(cx, prim, got, want, label):
    """A decoded value is what the type can carry of the one stored."""
    if kind(prim) == "bool":
        cx.check(cx.iff(got, want), label)
    else:
        cx.check(got == want, label)


def elem_size(prim):
    """Bytes of one channel element in a data frame."""
    return 2 + SIZE[prim]


def event_size(prim):
    """Bytes of one event."""
    return 2 + 2 * (SIZE[prim] + 8)


def split(sizes, room):
    """How elements are split into frames that take 'room' bytes each."""
    frames = []
    used = None
    for idx, size in enumerate(sizes):
        if used is None or used + size > room:
            frames.append([])
            used = 0
        frames[-1].append(idx)
        used += size
    return frames
