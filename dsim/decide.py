"""Every nondeterministic choice of a simulated run goes through a Decider.

A Decider answers `choose(stream, n)` with an integer in [0, n).  0 is always
the tame choice: first ready task, no preemption, no fault.  In search mode the
answers come from one PRNG per stream, all derived from the run's seed; every
non-zero answer is recorded.  In replay mode the answers come from such a
record, anything not in it is 0.  The record is therefore the schedule and
fault trace, and deleting entries from it is how a trace is minimised.
"""

import hashlib
import random


def derive(*parts):
    """Stable integer seed from arbitrary printable parts (no builtin hash)."""
    text = "\x1f".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


class Decider:
    def __init__(self, seed=None, record=None):
        self.seed = seed
        self.replaying = record is not None
        self.record = dict(record) if record is not None else {}
        self._rng = {}
        self._count = {}
        self._digest = hashlib.sha256()
        self.n_decisions = 0

    def _next(self, stream):
        i = self._count.get(stream, 0)
        self._count[stream] = i + 1
        return i

    def _stream_rng(self, stream):
        r = self._rng.get(stream)
        if r is None:
            r = self._rng[stream] = random.Random(derive(self.seed, stream))
        return r

    def choose(self, stream, n):
        """Integer in [0, n); 0 is the tame choice."""
        if n <= 1:
            return 0
        i = self._next(stream)
        key = f"{stream}:{i}"
        if self.replaying:
            v = self.record.get(key, 0) % n
        else:
            v = self._stream_rng(stream).randrange(n)
            if v:
                self.record[key] = v
        self._note(key, v)
        return v

    def chance(self, stream, p):
        """True with probability p in search mode; recorded as 1."""
        i = self._next(stream)
        key = f"{stream}:{i}"
        if self.replaying:
            v = 1 if self.record.get(key, 0) else 0
        else:
            v = 1 if (p > 0 and self._stream_rng(stream).random() < p) else 0
            if v:
                self.record[key] = v
        if v:
            self._note(key, v)
        return bool(v)

    def _note(self, key, v):
        self.n_decisions += 1
        self._digest.update(f"{key}={v};".encode())

    def note(self, text):
        """Add an event to the digest of the run (no choice made)."""
        self._digest.update(f"|{text}".encode())

    def digest(self):
        return self._digest.hexdigest()[:16]
