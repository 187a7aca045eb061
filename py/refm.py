"""ctypes view of the reference model (harness/ref.hpp)."""
import ctypes as C
import os

_l = C.CDLL(os.environ['REFLIB'])
_l.ref_new.restype = C.c_void_p
_l.ref_new.argtypes = [C.c_uint64]
for _n in ('free', 'start', 'sfen', 'rotated', 'legal', 'usi', 'apply', 'pass', 'undo', 'pick', 'incheck', 'ismate', 'declare', 'valid', 'turn', 'board',
           'attacks', 'set', 'random', 'special', 'mate_or', 'mate_and', 'mateish', 'dfpn'):
    _f = getattr(_l, 'ref_' + _n)
    _f.argtypes = [C.c_void_p] + {'sfen': [C.c_char_p, C.c_int], 'rotated': [C.c_char_p, C.c_int], 'legal': [C.POINTER(C.c_int)],
                                  'usi': [C.c_int, C.c_char_p, C.c_int], 'apply': [C.c_int], 'pick': [C.c_int], 'set': [C.c_char_p], 'random': [C.c_int],
                                  'special': [C.c_int], 'attacks': [C.c_int, C.c_int], 'board': [C.POINTER(C.c_int), C.POINTER(C.c_int)],
                                  'mate_or': [C.c_int, C.c_long], 'mate_and': [C.c_int, C.c_long],
                                  'dfpn': [C.c_int, C.c_int, C.c_long]}.get(_n, [])
_buf = C.create_string_buffer(512)
_mv = (C.c_int * 700)()
NSPECIAL = _l.ref_nspecial()


class Ref:
    def __init__(self, seed=1):
        self.h = _l.ref_new(seed)

    def __del__(self):
        if self.h:
            _l.ref_free(self.h)

    def set(self, sfen):
        return bool(_l.ref_set(self.h, sfen.encode()))

    def start(self):
        _l.ref_start(self.h)

    def random(self, full):
        _l.ref_random(self.h, int(full))

    def special(self, i):
        _l.ref_special(self.h, i)

    def sfen(self):
        _l.ref_sfen(self.h, _buf, 512)
        return _buf.value.decode()

    def rotated(self):
        _l.ref_rotated(self.h, _buf, 512)
        return _buf.value.decode()

    def legal(self):
        n = _l.ref_legal(self.h, _mv)
        return list(_mv[:n])

    def usi(self, m):
        _l.ref_usi(self.h, m, _buf, 512)
        return _buf.value.decode()

    def apply(self, m):
        _l.ref_apply(self.h, m)

    def pass_(self):
        _l.ref_pass(self.h)

    def undo(self):
        _l.ref_undo(self.h)

    def pick(self, policy):
        return _l.ref_pick(self.h, policy)

    incheck = property(lambda s: bool(_l.ref_incheck(s.h)))
    ismate = property(lambda s: bool(_l.ref_ismate(s.h)))
    declare = property(lambda s: bool(_l.ref_declare(s.h)))
    valid = property(lambda s: bool(_l.ref_valid(s.h)))
    turn = property(lambda s: _l.ref_turn(s.h))

    def board(self):
        b = (C.c_int * 81)()
        h = (C.c_int * 14)()
        _l.ref_board(self.h, b, h)
        return list(b), [list(h[:7]), list(h[7:])]

    def attacks(self, s, t):
        return bool(_l.ref_attacks(self.h, s, t))

    def mate_or(self, n, limit=200000):
        return _l.ref_mate_or(self.h, n, limit)

    def mate_and(self, n, limit=200000):
        return _l.ref_mate_and(self.h, n, limit)

    def mateish(self):
        _l.ref_mateish(self.h)

    def dfpn(self, attacker, d, limit=30000):
        return _l.ref_dfpn(self.h, int(attacker), d, limit)


def start_position(ref, rng, i):
    """Deterministic mix of the start position, special and random set-ups."""
    k = i % 4
    if k == 0:
        ref.start()
    elif k == 1:
        ref.special(rng.randrange(NSPECIAL))
    else:
        ref.random(k == 2)
