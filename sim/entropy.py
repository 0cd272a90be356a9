"""OS entropy seam: urandom, SystemRandom/secrets, tempfile names come from the plan."""
import os
import random
import tempfile

from . import state as st

_real = os.urandom


def _rng():
    s = st.S
    r = getattr(s, "entropy", None)
    if r is None:
        r = s.entropy = random.Random(f"entropy:{s.seed}:{getattr(s, 'entropy_salt', 0)}:{s.worker_id}")
    return r


def _urandom(n):
    if st.S is None:
        return _real(n)
    st.S.tick("urandom")
    if getattr(st.S, "entropy_fixed", False):      # every reader gets the same bytes
        return random.Random("fixed").randbytes(n)
    return _rng().randbytes(n)


class _Names:
    chars = "abcdefghijklmnopqrstuvwxyz0123456789_"

    def __init__(self, real):
        self.real = real

    def __iter__(self):
        return self

    def __next__(self):
        if st.S is None:
            return next(self.real)
        return "".join(_rng().choices(self.chars, k=8))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    os.urandom = _urandom
    random._urandom = _urandom
    tempfile._name_sequence = _Names(tempfile._RandomNameSequence())
