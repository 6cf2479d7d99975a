"""Keys of the script language with a chosen hash (the collision structure of histories); a different hash function in the
implementation only makes the histories collide less."""
import struct


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & 0xffffffffffffffff
    return h


def int_hash(n):
    return fnv(struct.pack("<q", n))


def int_with(hv, mask, skip=0, start=1):
    n = start
    while True:
        if int_hash(n) & mask == hv & mask:
            if skip == 0:
                return n
            skip -= 1
        n += 1


def str_with(hv, mask, skip=0):
    n = 0
    while True:
        s = "k%d" % n
        if fnv(s.encode()) & mask == hv & mask:
            if skip == 0:
                return s
            skip -= 1
        n += 1
