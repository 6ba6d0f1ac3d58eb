"""Keyed pseudo-randomness: every draw is a pure function of (seed, label path).

Removing one operation or fault from a plan therefore leaves every other draw
unchanged, which is what keeps minimisation meaningful.
"""
import hashlib
import random


def h64(*parts) -> int:
    return int.from_bytes(hashlib.blake2b("\x1f".join(str(p) for p in parts).encode(), digest_size=8).digest(), "big")


def keyed(*parts) -> random.Random:
    return random.Random(h64(*parts))


def u(*parts) -> float:
    """Uniform [0,1) keyed draw."""
    return (h64(*parts) >> 11) / float(1 << 53)
