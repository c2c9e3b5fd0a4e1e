"""small helpers shared by the checks that drive an application"""
import hashlib


def pattern(seed, n):
    """n aperiodic bytes, a pure function of (seed, n)"""
    if not n:
        return b''
    return hashlib.shake_128(b'%d' % seed).digest(n)


def make_app(**config):
    from ombott import Ombott
    return Ombott(config or None)
