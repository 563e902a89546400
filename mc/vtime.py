"""Virtual sleeping: time.sleep() costs nothing, and is recorded.

Installed before the code under test is imported, so it is seen whichever way sleep is
imported.  Only sleep is virtual; time.time() can be pinned by a check."""

import time

real_sleep = time.sleep
slept = []


def _sleep(seconds):
    if not isinstance(seconds, (int, float)):
        raise TypeError('%r object cannot be interpreted as an integer' % type(seconds).__name__)
    slept.append(seconds)


def install():
    time.sleep = _sleep
