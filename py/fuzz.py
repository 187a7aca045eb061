"""Malformed positions and moves through the Python API: rejected with an exception and nothing changed, or read as exactly what was written."""
import re

import numpy as np

import cshogi as C
from cshogi import Board
from core_util import csa_of
from mon import Mon
from refm import Ref, start_position

M = Mon()
R = M.rng
MAXC = {'P': 18, 'L': 4, 'N': 4, 'S': 4, 'G': 4, 'B': 2, 'R': 2, 'K': 2}


def strict(s):
    """The SFEN grammar: (board as 81 tokens rank by rank, turn, hand counts, ply) or None."""
    t = s.split(' ')
    if len(t) not in (3, 4):
        return None
    ranks = t[0].split('/')
    if len(ranks) != 9 or t[1] not in ('b', 'w'):
        return None
    bd = []
    for r in ranks:
        if not re.fullmatch(r'(?:[1-9]|\+?[PLNSBRplnsbr]|[GKgk])*', r):
            return None
        row = []
        for x in re.findall(r'[1-9]|\+?[A-Za-z]', r):
            row += [''] * int(x) if x.isdigit() else [x]
        if len(row) != 9:
            return None
        bd += row
    hand = {}
    if t[2] != '-':
        if not re.fullmatch(r'(?:(?:[1-9]|1[0-8])?[RBGSNLPrbgsnlp])+', t[2]):
            return None
        for n, x in re.findall(r'(\d*)([A-Za-z])', t[2]):
            if x in hand:
                return None
            hand[x] = int(n or 1)
    tot = {}
    for x in bd:
        if x:
            tot[x[-1].upper()] = tot.get(x[-1].upper(), 0) + 1
    for x, n in hand.items():
        tot[x.upper()] = tot.get(x.upper(), 0) + n
    if any(n > MAXC[x] for x, n in tot.items()) or bd.count('K') > 1 or bd.count('k') > 1:
        return None
    if len(t) == 4 and not re.fullmatch(r'[0-9]{1,4}', t[3]):
        return None
    return bd, t[1], hand, int(t[3]) if len(t) == 4 else None


def canon(p):
    bd, turn, hand, ply = p
    rows = []
    for r in range(9):
        s, e = '', 0
        for x in bd[r * 9:r * 9 + 9]:
            if x:
                s += (str(e) if e else '') + x
                e = 0
            else:
                e += 1
        rows.append(s + (str(e) if e else ''))
    h = ''.join((str(hand[x]) if hand[x] > 1 else '') + x for x in 'RBGSNLPrbgsnlp' if hand.get(x))
    return '%s %s %s' % ('/'.join(rows), turn, h or '-')


START = 'lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1'
CH = 'PLNSBRGKplnsbrgk+123456789/0 -bwxX\t*,.:'
WORDS = ['startpos', 'sfen', 'moves', '7g7f', '3c3d', 'P*5e', '8h2b+', 'resign', '', '5i5i', '0a1b', 'P*', '*', '9' * 30, '99', '-1', 'position', '\x00', '角', '\udc80']


def mutate(s):
    s = list(s)
    for _ in range(R.choice((1, 1, 1, 2, 3, 8))):
        k = R.randrange(7)
        i = R.randrange(len(s) + 1)
        if k == 0 and s:
            del s[min(i, len(s) - 1)]
        elif k == 1:
            s.insert(i, R.choice(CH))
        elif k == 2 and s:
            s[min(i, len(s) - 1)] = R.choice(CH)
        elif k == 3:
            s = s[:i]
        elif k == 4:
            j = R.randrange(len(s) + 1)
            s[i:i] = s[min(i, j):max(i, j)]
        elif k == 5:
            s[i:i] = R.choice(WORDS)
        elif len(s) > 1:
            a, b = R.randrange(len(s)), R.randrange(len(s))
            s[a], s[b] = s[b], s[a]
    return ''.join(s)


V = Ref(2)


def kings(b):
    p = b.pieces
    return p.count(C.BKING) == 1 and p.count(C.WKING) == 1


def snap(b):
    return b.sfen(), b.zobrist_hash(), tuple(b.history), tuple(b.pieces), tuple(map(tuple, b.pieces_in_hand)), b.turn, b.move_number


def follow(b):
    """A board that was accepted has to be usable."""
    if not kings(b) or b.move_number > 1000000:
        return
    if V.set(b.sfen()) and V.valid:
        M.count('follow')
        for m in list(b.legal_moves)[:3]:
            b.push(m)
            b.is_check(), b.sfen(), b.is_draw()
            b.pop()
    h = np.zeros(1, C.HuffmanCodedPos)
    b.to_hcp(h)


def attempt(b, f, what, text):
    """Runs a setter: True accepted, False rejected (then nothing may have changed)."""
    before = snap(b)
    M.crumb('%s %r' % (what, text))
    M.eval()
    try:
        f()
    except (ValueError, RuntimeError, IndexError, TypeError, OverflowError) as e:
        M.count(what + '.rejected')
        M.check(snap(b) == before, what + '-rejected-but-changed', lambda: '%r: %r -> %r (%s)' % (text, before[0], b.sfen(), e))
        return False
    M.count(what + '.accepted')
    return True


def history_board(r):
    b = Board(r.sfen())
    for _ in range(R.randrange(3)):
        m = r.pick(0)
        if not m:
            break
        b.push(m)
        r.apply(m)
    return b


def fuzz_sfen(r):
    base = r.sfen()
    b = history_board(r)
    for _ in range(12):
        t = mutate(base) if R.random() < .95 else base
        p = strict(t)
        how = R.randrange(3)
        if how == 0:
            try:
                M.crumb('Board(%r)' % t)
                b = Board(t)
                ok = True
                M.eval()
            except (ValueError, RuntimeError):
                ok = False
        else:
            txt = t if how == 1 else 'sfen ' + t
            ok = attempt(b, (lambda: b.set_sfen(t)) if how == 1 else (lambda: b.set_position(txt)), 'set_sfen' if how == 1 else 'set_position', txt)
        M.distinct(t)
        if ok:
            if p is None:
                M.count('sfen.accepted_nonstrict')
                if M.arg == 'v':
                    print('NONSTRICT', repr(t), b.sfen())
                M.violation('malformed-sfen-accepted', '%r read as %s' % (t, b.sfen())) if not lenient(t, b) else None
            else:
                M.check(b.sfen().rsplit(' ', 1)[0] == canon(p), 'sfen-misread', lambda: '%r read as %s' % (t, b.sfen()))
                if p[3]:
                    M.check(b.move_number == p[3], 'sfen-misread', lambda: '%r read with move number %d' % (t, b.move_number))
            follow(b)
        elif p is not None and len(t.split(' ')) == 4 and not (how == 2 and p is None):
            M.violation('good-sfen-rejected', repr(t))


def lenient(t, b):
    """Differences of writing that do not change what is meant: blanks, missing or empty fields, an odd move counter."""
    if t == '':
        return b.sfen() == START    # Board() and Board('') are the initial position
    for w in (t.split(), [x or d for x, d in zip(t.split(' '), ('', 'b', '-'))]):
        w += ['b', '-'][len(w) - 1:] if 1 <= len(w) < 3 else []
        q = strict(' '.join(w[:3]))
        if q is not None and b.sfen().rsplit(' ', 1)[0] == canon(q):
            return True
    return False


def fuzz_position(r):
    b = Board(r.sfen())
    base = R.choice(['startpos', 'sfen ' + r.sfen()])
    mv, keep = [], Ref(1)
    keep.set(r.sfen() if base != 'startpos' else 'lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1')
    for _ in range(R.randrange(6)):
        m = keep.pick(R.randrange(7))
        if not m:
            break
        mv.append(keep.usi(m))
        keep.apply(m)
    good = base + (' moves ' + ' '.join(mv) if mv else '')
    ok = attempt(b, lambda: b.set_position(good), 'set_position', good)
    M.check(ok and b.sfen() == keep.sfen(), 'position-misread', lambda: '%s read as %s' % (good, b.sfen()))
    if not mv:
        return
    # an illegal or unreadable move in the list
    for _ in range(6):
        w = list(mv)
        i = R.randrange(len(w))
        w[i] = mutate(w[i]).replace(' ', '') or 'x'
        t = base + ' moves ' + ' '.join(w)
        x = Ref(1)
        x.set('lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1' if base == 'startpos' else base[5:])
        legal = True
        for u in w:
            c = [m for m in x.legal() if x.usi(m) == u]
            if not c:
                legal = False
                break
            x.apply(c[0])
        before = snap(b)
        M.distinct(t)
        ok = attempt(b, lambda: b.set_position(t), 'set_position', t)
        if legal:
            M.check(ok and b.sfen() == x.sfen(), 'position-misread', lambda: '%s read as %s' % (t, b.sfen() if ok else 'rejected'))
        elif ok:
            M.count('position.bad_move_accepted')
            if M.arg == 'v':
                print('BADMOVE', t, '->', b.sfen())
            y = Ref(1)
            M.check(y.set(b.sfen()) , 'position-unreadable', lambda: '%s -> %s' % (t, b.sfen()))
        follow(b)


def fuzz_codes(r):
    b = Board(r.sfen())
    for dt, put, get, name in ((C.HuffmanCodedPos, 'set_hcp', 'to_hcp', 'hcp'), (C.PackedSfen, 'set_psfen', 'to_psfen', 'psfen')):
        a = np.zeros(1, dt)
        getattr(b, get)(a)
        raw0 = bytearray(a.tobytes())
        for _ in range(12):
            raw = bytearray(raw0)
            k = R.randrange(4)
            if k == 0:
                for _ in range(R.choice((1, 1, 2, 5))):
                    raw[R.randrange(32)] ^= 1 << R.randrange(8)
            elif k == 1:
                raw = bytearray(R.randrange(256) for _ in range(32))
            elif k == 2:
                i = R.randrange(32)
                raw[i:] = bytes([R.choice((0, 255, R.randrange(256)))]) * (32 - i)
            else:
                i, j = sorted((R.randrange(33), R.randrange(33)))
                raw[i:j] = bytes(R.randrange(256) for _ in range(j - i))
            c = np.frombuffer(bytes(raw), np.uint8).copy() if R.random() < .5 else np.frombuffer(bytes(raw), dt).copy()
            x = Board(r.sfen())
            M.distinct(bytes(raw))
            if attempt(x, lambda: getattr(x, put)(c), put, bytes(raw).hex()):
                p = strict(x.sfen())
                M.check(p is not None, name + '-accepted-impossible', lambda: '%s -> %s' % (bytes(raw).hex(), x.sfen()))
                d = np.zeros(1, dt)
                M.check(kings(x), name + '-accepted-impossible', lambda: '%s -> %s' % (bytes(raw).hex(), x.sfen()))
                getattr(x, get)(d)
                M.count(name + ('.canonical' if d.tobytes() == bytes(raw) else '.other_spelling'))
                y = Board()
                getattr(y, put)(d)
                M.check(y.sfen().rsplit(' ', 1)[0] == x.sfen().rsplit(' ', 1)[0], name + '-unstable', lambda: '%s read as %s, written and read again as %s' % (bytes(raw).hex(), x.sfen(), y.sfen()))
                follow(x)
        short = np.zeros(R.randrange(32), np.uint8)
        M.check(not attempt(b, lambda: getattr(b, put)(short), put + '_short', str(len(short))), name + '-short-accepted', lambda: '%d bytes' % len(short))


def fuzz_pieces(r):
    b = Board(r.sfen())
    p0, h0 = list(b.pieces), [list(x) for x in b.pieces_in_hand]
    for _ in range(10):
        p, h = list(p0), [list(x) for x in h0]
        for _ in range(R.choice((1, 1, 2, 4))):
            k = R.randrange(4)
            if k == 0:
                if not p:
                    continue
                p[R.randrange(len(p))] = R.choice((15, 16, 31, 32, 33, -1, 100, 2 ** 31 - 1, -2 ** 31, R.randrange(31), R.randrange(31)))
            elif k == 1:
                i = R.randrange(len(h))
                if h[i]:
                    h[i][R.randrange(len(h[i]))] = R.choice((-1, 3, 5, 19, 100, 2 ** 31 - 1, R.randrange(19)))
            elif k == 2:
                i, j = R.randrange(len(p) or 1), R.randrange(len(p) or 1)
                if p:
                    p[i], p[j] = p[j], p[i]
            else:
                i = R.randrange(81)
                if R.random() < .3:
                    p = p[:i]
                elif R.random() < .3:
                    p.append(0)
                elif R.random() < .3:
                    h = h[:1]
                else:
                    h[0] = h[0][:R.randrange(7)]
        M.distinct((tuple(p), tuple(map(tuple, h))))
        x = Board(r.sfen())
        txt = '%s %s' % (p, h)
        if attempt(x, lambda: x.set_pieces(p, tuple(h)), 'set_pieces', txt):
            M.check(len(p) >= 81 and list(x.pieces) == p[:81] and [list(y) for y in x.pieces_in_hand] == [y[:7] for y in h[:2]], 'pieces-misread', lambda: '%s read as %s' % (txt, x.sfen()))
            M.check(strict(x.sfen()) is not None, 'pieces-accepted-impossible', lambda: '%s -> %s' % (txt, x.sfen()))
            follow(x)


def near(u):
    """A text close to a move: a square spelt so that careless arithmetic takes it for the same one, or one character off by a bit or a step."""
    s = list(u)
    k = R.randrange(4)
    if k < 2:
        i = R.choice([0, 2]) if u[:2] != '00' and u[1:2] != '*' else 2
        d = R.choice([-2, -1, 1, 2])
        a, b = ord(s[i]) + d, ord(s[i + 1]) - 9 * d
        if 0 < a < 128 and 0 < b < 128:
            s[i], s[i + 1] = chr(a), chr(b)
    else:
        i = R.randrange(len(s))
        c = ord(s[i]) ^ (1 << R.randrange(7)) if k == 2 else ord(s[i]) + R.choice([-9, -1, 1, 9])
        s[i] = chr(c) if 0 < c < 128 else '0'
    return ''.join(s)


def fuzz_moves(r):
    b = Board(r.sfen())
    legal = r.legal()
    usis = {r.usi(m): m for m in legal}
    csas = {csa_of(m): m for m in legal}
    s0 = snap(b)
    for _ in range(40):
        k = R.choice([0, 0, 1, 1, 2, 3])
        if k == 0:
            u = R.choice([mutate, near])(R.choice(list(usis) or ['7g7f']))
            M.crumb('usi %r on %s' % (u, r.sfen()))
            try:
                m = b.move_from_usi(u)
            except (ValueError, UnicodeEncodeError):
                m = 0
            what = u
        elif k == 1:
            u = R.choice([mutate, near])(R.choice(list(csas) or ['7776FU']))
            M.crumb('csa %r on %s' % (u, r.sfen()))
            try:
                m = b.move_from_csa(u)
            except (ValueError, UnicodeEncodeError):
                m = 0
            what = u
        elif k == 2:
            u = R.randrange(65536)
            M.crumb('move16 %d on %s' % (u, r.sfen()))
            m = b.move_from_move16(u)
            what = u
        else:
            u = R.randrange(65536)
            M.crumb('psv %d on %s' % (u, r.sfen()))
            m = b.move_from_psv(u)
            what = u
        M.eval()
        M.distinct((r.sfen(), u))
        M.check(snap(b) == s0, 'move-query-changed', lambda: '%r on %s' % (what, r.sfen()))
        if k < 2:
            # text: a legal move, or nothing
            if m:
                M.check(m in legal, ('usi' if k == 0 else 'csa') + '-illegal-accepted', lambda: '%r on %s gives %s' % (what, r.sfen(), C.move_to_usi(m)))
                if k == 0 and m in legal:
                    M.check(m in (usis.get(u), usis.get(u.upper()[:1] + u[1:])), 'usi-misread', lambda: '%r on %s gives %s' % (what, r.sfen(), C.move_to_usi(m)))
                if k == 1 and m in legal:
                    M.check(m == csas.get(u), 'csa-misread', lambda: '%r on %s gives %s' % (what, r.sfen(), C.move_to_usi(m)))
                M.count('text.legal')
            else:
                M.count('text.none')
                if k == 0:
                    M.check(u not in usis, 'usi-legal-refused', lambda: '%r on %s' % (what, r.sfen()))
                else:
                    M.check(u not in csas, 'csa-legal-refused', lambda: '%r on %s' % (what, r.sfen()))
        # pushing garbage text is refused and changes nothing
        if k < 2 and (not m or m not in legal):
            f = (lambda: b.push_usi(u)) if k == 0 else (lambda: b.push_csa(u))
            try:
                f()
                res = 'ok'
            except Exception as e:
                res = type(e).__name__
            M.count('push_text.' + res)
            if res == 'ok' and snap(b) == s0:
                M.count('push_text.ignored')
            M.check(snap(b) == s0, 'push-garbage-changed', lambda: '%r on %s -> %s' % (what, r.sfen(), b.sfen()))
            if snap(b) != s0:
                b = Board(r.sfen())


def main():
    r = Ref(M.seed * 7919 + M.shard)
    fs = {'sfen': fuzz_sfen, 'position': fuzz_position, 'codes': fuzz_codes, 'pieces': fuzz_pieces, 'moves': fuzz_moves}
    todo = list(fs.values()) if M.mode == 'all' else [fs[M.mode]]
    for g in range(M.cases):
        for f in todo:
            start_position(r, R, R.randrange(4))
            if f is fuzz_codes and g % 4:
                r.random(True)
            if g == 0:
                M.sample('%s from %s' % (f.__name__, r.sfen()))
            f(r)


main()
M.finish()
