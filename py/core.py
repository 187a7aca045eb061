"""Monitors of the Python API of Board and of the move helpers, against the reference model."""
import copy
import sys

import numpy as np

import cshogi as C
from cshogi import Board
from mon import Mon
from refm import Ref, start_position

M = Mon()
NAMES = [None, 'FU', 'KY', 'KE', 'GI', 'KA', 'HI', 'KI', 'OU', 'TO', 'NY', 'NK', 'NG', 'UM', 'RY']
INT_MAX = 2 ** 31 - 1


def fields(m):
    """(from or None, to, promote, piece type, captured type) of an encoded move."""
    to, fr = m & 127, (m >> 7) & 127
    if fr > 80:
        return None, to, False, fr - 80, 0
    return fr, to, bool(m >> 14 & 1), m >> 16 & 15, m >> 20 & 15


def sq_csa(s):
    return '%d%d' % (s // 9 + 1, s % 9 + 1)


def csa_of(m):
    fr, to, pro, pt, _ = fields(m)
    return ('00' if fr is None else sq_csa(fr)) + sq_csa(to) + NAMES[pt + 8 if pro else pt]


def state(b):
    h, p = np.zeros(1, C.HuffmanCodedPos), np.zeros(1, C.PackedSfen)
    b.to_hcp(h)
    b.to_psfen(p)
    return {'sfen': b.sfen(), 'csa': b.csa_pos(), 'repr': repr(b), 'hcp': h.tobytes(), 'psfen': p.tobytes(), 'pieces': list(b.pieces), 'hand': [list(x) for x in b.pieces_in_hand],
            'piece': [b.piece(s) for s in range(81)], 'ptype': [b.piece_type(s) for s in range(81)], 'turn': b.turn, 'ply': b.move_number, 'kings': (b.king_square(0), b.king_square(1)),
            'check': b.is_check(), 'over': b.is_game_over(), 'key': b.zobrist_hash(), 'book': b.book_key(), 'legal': sorted(b.legal_moves), 'ny': b.is_nyugyoku(),
            'draw': b.is_draw(), 'history': list(b.history), 'peek': b.peek()}


def sdiff(a, b, skip=()):
    return [k for k in a if k not in skip and a[k] != b[k]]


def walk(check, plies=30):
    r = Ref(M.seed * 7919 + M.shard)
    for g in range(M.cases):
        start_position(r, M.rng, g)
        b = Board(r.sfen())
        pol = M.rng.randrange(7)
        for _ in range(plies):
            M.crumb(M.mode + ' ' + r.sfen())
            check(b, r)
            m = r.pick(pol if M.rng.random() < .6 else 0)
            if not m:
                M.count('terminal')
                break
            b.push(m)
            r.apply(m)
        M.count('games')
        M.sample(r.sfen())


# C01 ------------------------------------------------------------------------
def movegen(b, r):
    s, want = r.sfen(), sorted(r.legal())
    M.eval()
    M.distinct(s)
    ml = b.legal_moves
    n = len(ml)
    got = list(ml)
    M.check(n == len(got) == len(want), 'py-legal-len', lambda: '%s len %d iter %d want %d' % (s, n, len(got), len(want)))
    M.check(sorted(got) == want, 'py-legal', lambda: s + ' extra %s missing %s' % ([C.move_to_usi(x) for x in set(got) - set(want)], [C.move_to_usi(x) for x in set(want) - set(got)]))
    M.check(len(set(got)) == len(got), 'py-legal-dup', s)
    M.check(set(want) <= set(b.pseudo_legal_moves), 'py-pseudo', s) if len(list(b.pseudo_legal_moves)) != 0 or not want else None
    M.check(b.is_game_over() == (not want), 'py-game-over', s)
    M.check(b.is_check() == r.incheck, 'py-check', s)
    M.count('moves', len(want))


# C02 ------------------------------------------------------------------------
def legality(b, r):
    s = r.sfen()
    want = r.legal()
    ws = set(want)
    usis = {r.usi(m): m for m in want}
    csas = {csa_of(m): m for m in want}
    M.eval()
    M.distinct(s)
    for m in want:
        u, c = r.usi(m), csa_of(m)
        M.check(b.is_legal(m) is True and b.is_pseudo_legal(m) is True and b.pseudo_legal_move_is_legal(m) is True, 'py-is_legal', lambda: s + ' ' + u)
        M.check(b.move_from_usi(u) == m, 'py-move_from_usi', lambda: s + ' ' + u)
        M.check(b.move_from_csa(c) == m, 'py-move_from_csa', lambda: s + ' ' + c)
    # strings and integers near the legal ones
    rng = M.rng
    for _ in range(60):
        f, t = rng.randrange(81), rng.randrange(81)
        u = '%d%s%d%s%s' % (f // 9 + 1, 'abcdefghi'[f % 9], t // 9 + 1, 'abcdefghi'[t % 9], rng.choice(['', '+']))
        if rng.random() < .3:
            u = rng.choice('PLNSGBR') + '*' + u[2:4]
        if rng.random() < .1:
            u = rng.choice([u[:3], u + 'x', u.upper(), '', 'resign', u[::-1], 'win', '0' + u[1:], u + '++'])
        M.check(b.move_from_usi(u) == usis.get(u, 0), 'py-move_from_usi-reject', lambda: '%s %r -> %d' % (s, u, b.move_from_usi(u)))
        c = (sq_csa(f) if rng.random() < .7 else '00') + sq_csa(t) + rng.choice(NAMES[1:])
        if rng.random() < .1:
            c = rng.choice([c[:5], c[:3], '', c + 'x', c[:4] + 'XX', '+' + c])
            if len(c) > 6:
                continue
        M.check(b.move_from_csa(c) == csas.get(c, 0), 'py-move_from_csa-reject', lambda: '%s %r -> %d' % (s, c, b.move_from_csa(c)))
        M.count('probes', 2)
    before = b.sfen()
    u = rng.choice(['9i9a+', '5e5d', 'P*5e', 'K*5e', 'x'])
    if u not in usis:
        M.check(b.push_usi(u) == 0 and b.sfen() == before and True, 'py-push_usi-reject', lambda: s + ' ' + u)
    for m in rng.sample(want, min(20, len(want))):
        for bad in (m ^ (1 << 14), m ^ (rng.randrange(1, 16) << 16), m ^ (rng.randrange(1, 16) << 20), m ^ rng.randrange(1, 128), m ^ (rng.randrange(1, 128) << 7)):
            if (bad & 127) > 80 or ((bad >> 7) & 127) > 87:
                continue
            if ((bad >> 7) & 127) > 80 and bad >> 14:
                continue
            M.check(b.is_legal(bad) == (bad in ws), 'py-is_legal-mutant', lambda: '%s %#x' % (s, bad))
            M.count('mutants')


# C03 ------------------------------------------------------------------------
def run_state():
    r = Ref(M.seed * 104729 + M.shard)
    rng = M.rng
    for g in range(M.cases):
        start_position(r, rng, g)
        root = r.sfen()
        b = Board(root)
        stack = [state(b)]
        kinds = []
        trail = root
        boards = []
        for _ in range(40):
            M.crumb('state ' + trail)
            op = rng.random()
            M.eval()
            if op < .55:
                m = r.pick(rng.randrange(7))
                if not m:
                    break
                how = rng.randrange(5)
                if how == 0:
                    b.push(m)
                elif how == 1:
                    M.check(b.push_usi(r.usi(m)) == m, 'py-push_usi', trail + ' ' + r.usi(m))
                elif how == 2:
                    M.check(b.push_csa(csa_of(m)) == m, 'py-push_csa', trail + ' ' + csa_of(m))
                elif how == 3:
                    M.check(b.push_move16(m & 0xffff) == m, 'py-push_move16', trail + ' ' + r.usi(m))
                else:
                    M.check(b.push_psv(C.move16_to_psv(m & 0xffff)) == m, 'py-push_psv', trail + ' ' + r.usi(m))
                trail += ' ' + r.usi(m)
                r.apply(m)
                kinds.append(m)
                M.count('push%d' % how)
                M.check(b.peek() == m, 'py-peek', trail)
            elif op < .62 and not r.incheck:
                b.push_pass()
                r.pass_()
                kinds.append(None)
                trail += ' pass'
                M.count('pass')
            elif kinds:
                m = kinds.pop()
                if m is None:
                    b.pop_pass()
                else:
                    got = b.pop()
                    M.check(got == m, 'py-pop-value', trail)
                r.undo()
                stack.pop()
                trail += ' pop'
                M.count('pop')
                d = sdiff(stack[-1], state(b))
                M.check(not d, 'py-restore', lambda: '%s | %s' % (d, trail))
                continue
            else:
                continue
            st = state(b)
            stack.append(st)
            bd, hd = r.board()
            M.check(st['pieces'] == bd and st['piece'] == bd, 'py-pieces', trail)
            M.check(st['ptype'] == [x & 15 for x in bd], 'py-piece_type', trail)
            M.check(st['hand'] == hd, 'py-hand', trail)
            M.check(st['turn'] == r.turn, 'py-turn', trail)
            M.check(len(st['history']) == len(kinds) and all(k is None and h not in kinds or h == k for h, k in zip(st['history'], kinds)), 'py-history', lambda: '%r | %s' % (st['history'], trail))
            M.check(b.is_ok(), 'py-is_ok', trail)
            f = Board(b.sfen())
            d = sdiff(st, state(f), ('draw', 'history', 'peek'))
            M.check(not d, 'py-scratch', lambda: '%s | %s' % (d, trail))
            if rng.random() < .15:
                c = rng.choice([b.copy, lambda: copy.copy(b), lambda: Board(board=b)])()
                M.check(not sdiff(st, state(c)), 'py-copy', trail)
                boards.append((c, state(c), trail))
                M.count('copy')
                if rng.random() < .4:
                    while c.history and len(c.history) > 0:
                        if kinds and c.peek() == kinds[-1] or c.peek() != Board.push_pass:
                            pass
                        try:
                            c.pop()
                        except IndexError:
                            break
                    boards.pop()
                    M.check(not sdiff(st, state(b)), 'py-copy-aliases', trail)
                    M.check(c.sfen() == root, 'py-copy-unwind', lambda: '%s want %s | %s' % (c.sfen(), root, trail))
        for c, st, tr in boards:
            M.check(not sdiff(st, state(c)), 'py-copy-drift', tr + ' | ' + trail)
        M.distinct(trail)
        M.sample(trail[:200])
        # the side to move and the move number can be set
        if not r.incheck:
            other = r.turn ^ 1
            s = b.sfen().split()
            s[1] = 'bw'[other]
            b.turn = other
            M.check(b.turn == other and b.sfen() == ' '.join(s), 'py-turn-set', trail)
            d = sdiff(state(b), state(Board(' '.join(s))), ('draw', 'history', 'peek'))
            M.check(not d, 'py-turn-set', lambda: '%s | %s' % (d, trail))
            b.turn = other ^ 1
            d = sdiff(state(b), state(Board(b.sfen())), ('draw', 'history', 'peek'))
            M.check(not d, 'py-turn-set', lambda: '%s | %s' % (d, trail))
            b.turn = other ^ 1
            d = sdiff(state(b), state(Board(b.sfen())), ('draw', 'history', 'peek'))
            M.check(not d, 'py-turn-set', lambda: '%s | %s' % (d, trail))
            M.count('turn_set')
        b.move_number = 5
        M.check(b.move_number == 5 and b.sfen().endswith(' 5'), 'py-move_number', trail)
        b.reset()
        M.check(b.sfen() == C.STARTING_SFEN and list(b.history) == [], 'py-reset', trail)


# C05 ------------------------------------------------------------------------
def codec(b, r):
    s = r.sfen()
    M.eval()
    M.distinct(s)
    base = ' '.join(s.split()[:3])
    M.check(b.sfen() == s, 'py-sfen', lambda: b.sfen() + ' want ' + s)
    c = Board()
    c.push_usi('7g7f')
    c.set_sfen(s)
    M.check(c.sfen() == s and list(c.history) == [], 'py-set_sfen', s)
    M.check(Board(sfen=s).sfen() == s, 'py-ctor', s)
    h = np.zeros(3, C.HuffmanCodedPos)
    h.view(np.uint8)[:] = 0xAA
    b.to_hcp(h[1:2])
    raw = h.view(np.uint8).reshape(3, 32)
    M.check((raw[0] == 0xAA).all() and (raw[2] == 0xAA).all(), 'py-hcp-overrun', s)
    c.set_hcp(np.ascontiguousarray(h[1:2]))
    M.check(c.sfen().rsplit(' ', 1)[0] == base, 'py-hcp', lambda: c.sfen() + ' want ' + s)
    p = np.zeros(3, C.PackedSfen)
    p.view(np.uint8)[:] = 0xAA
    b.to_psfen(p[1:2])
    raw = p.view(np.uint8).reshape(3, 32)
    M.check((raw[0] == 0xAA).all() and (raw[2] == 0xAA).all(), 'py-psfen-overrun', s)
    c.set_psfen(np.ascontiguousarray(p[1:2]))
    M.check(c.sfen().rsplit(' ', 1)[0] == base, 'py-psfen', lambda: c.sfen() + ' want ' + s)
    e = np.zeros(1, C.HuffmanCodedPosAndEval)
    e['hcp'] = h[1]['hcp']
    c.set_hcp(e[0]['hcp'])
    M.check(c.sfen().rsplit(' ', 1)[0] == base, 'py-hcpe', s)
    v = np.zeros(1, C.PackedSfenValue)
    v['sfen'] = p[1]['sfen']
    c.set_psfen(v[0]['sfen'])
    M.check(c.sfen().rsplit(' ', 1)[0] == base, 'py-psv', s)
    c.set_sfen(s)
    c.set_pieces(list(b.pieces), tuple(list(x) for x in b.pieces_in_hand))
    M.check(c.sfen() == s and c.zobrist_hash() == b.zobrist_hash(), 'py-set_pieces', lambda: c.sfen() + ' want ' + s)
    M.check(C.rotate_sfen(s).rsplit(' ', 1)[0] == r.rotated().rsplit(' ', 1)[0], 'py-rotate_sfen', lambda: C.rotate_sfen(s) + ' want ' + r.rotated())
    M.check(C.rotate_sfen(C.rotate_sfen(s)) == s, 'py-rotate-twice', s)
    # the CSA diagram
    bd, hd = r.board()
    lines = b.csa_pos().split('\n')
    for i in range(9):
        want = 'P%d' % (i + 1) + ''.join(' * ' if not bd[f * 9 + i] else ('-' if bd[f * 9 + i] > 16 else '+') + NAMES[bd[f * 9 + i] & 15] for f in range(8, -1, -1))
        M.check(lines[i] == want, 'py-csa_pos', lambda: s + ' ' + lines[i])
    for col, sign in ((0, '+'), (1, '-')):
        txt = ''.join(x[2:] for x in lines[9:] if x.startswith('P' + sign))
        for i, nm in enumerate(('FU', 'KY', 'KE', 'GI', 'KI', 'KA', 'HI')):
            M.check(txt.count('00' + nm) == hd[col][i], 'py-csa_pos-hand', lambda: s + ' ' + txt)
    M.check([x for x in lines if x][-1] == '+-'[r.turn], 'py-csa_pos-turn', s)
    # startpos / sfen ... moves
    ms = []
    rr = Ref(1)
    rr.set(s)
    for _ in range(M.rng.randrange(4)):
        m = rr.pick(0)
        if not m:
            break
        ms.append(rr.usi(m))
        rr.apply(m)
    c.set_position('sfen ' + s + (' moves ' + ' '.join(ms) if ms or M.rng.random() < .5 else ''))
    M.check(c.sfen() == rr.sfen() and len(c.history) == len(ms), 'py-set_position', lambda: s + ' ' + ' '.join(ms) + ' -> ' + c.sfen())


# C06 ------------------------------------------------------------------------
KEYS, BOOK = {}, {}


def keys(b, r):
    s = r.sfen().rsplit(' ', 1)[0]
    M.eval()
    M.distinct(s)
    k, bk = b.zobrist_hash(), b.book_key()
    M.check(KEYS.setdefault(k, s) == s, 'py-zobrist-collision', s)
    f = Board(r.sfen())
    M.check(f.zobrist_hash() == k and f.book_key() == bk, 'py-key-path', s)
    M.check(0 <= k < 2 ** 64 and 0 <= bk < 2 ** 64, 'py-key-range', s)
    for m in M.rng.sample(r.legal(), min(8, len(r.legal()))):
        a = b.book_key_after(bk, m)
        c = b.copy()
        c.push(m)
        M.check(a == c.book_key(), 'py-book_key_after', lambda: s + ' ' + r.usi(m))
        M.check(c.zobrist_hash() == Board(c.sfen()).zobrist_hash(), 'py-key-after', lambda: s + ' ' + r.usi(m))


# C11 ------------------------------------------------------------------------
def moves(b, r):
    s = r.sfen()
    M.eval()
    M.distinct(s)
    want = r.legal()
    rb = Board(r.rotated())
    for m in want:
        fr, to, pro, pt, cap = fields(m)
        u, c = r.usi(m), csa_of(m)
        d = lambda: s + ' ' + u
        M.check(C.move_to(m) == to and C.move_from(m) == (80 + pt if fr is None else fr), 'py-move_to/from', d)
        M.check(C.move_cap(m) == cap and bool(C.move_is_promotion(m)) == pro and bool(C.move_is_drop(m)) == (fr is None), 'py-move-flags', d)
        if fr is None:
            M.check(C.hand_piece_to_piece_type(C.move_drop_hand_piece(m)) == pt, 'py-drop-piece', d)
            M.check(b.drop_move(to, pt) == m, 'py-drop_move', d)
        else:
            M.check(C.move_from_piece_type(m) == pt, 'py-from-piece', d)
            M.check(b.move(fr, to, pro) == m, 'py-board.move', d)
        M.check(C.move_to_usi(m) == u and C.to_usi(m) == u.encode(), 'py-usi', d)
        M.check(C.move_to_csa(m) == c and C.to_csa(m) == c.encode(), 'py-csa', d)
        m16 = C.move16(m)
        M.check(m16 == m & 0xffff and b.move_from_move16(m16) == m, 'py-move16', d)
        psv = C.move16_to_psv(m16)
        M.check(psv == (to | ((pt if fr is None else fr) << 7) | ((fr is None) << 14) | (pro << 15)), 'py-psv', d)
        M.check(C.move16_from_psv(psv) == m16 and b.move_from_psv(psv) == m, 'py-psv-back', d)
        ro = C.move_rotate(m)
        M.check(C.move_rotate(ro) == m and rb.is_legal(ro), 'py-rotate', d)
        M.count('moves')
    M.check(sorted(C.move_rotate(m) for m in want) == sorted(rb.legal_moves), 'py-rotation-symmetry', s)
    for q in range(81):
        M.check(C.make_file(q) == q // 9 and C.make_rank(q) == q % 9 and C.SQUARES[q] == q, 'py-squares', str(q))
    M.check(C.opponent(0) == 1 and C.opponent(1) == 0, 'py-opponent', '')


def constants():
    """The names the library gives to squares, pieces, results and verdicts denote what they say."""
    pts = ['PAWN', 'LANCE', 'KNIGHT', 'SILVER', 'BISHOP', 'ROOK', 'GOLD', 'KING', 'PROM_PAWN', 'PROM_LANCE', 'PROM_KNIGHT', 'PROM_SILVER', 'PROM_BISHOP', 'PROM_ROOK']
    sym = 'P L N S B R G K +P +L +N +S +B +R'.split()
    for i, n in enumerate(pts):
        for c in range(2):
            q = M.rng.randrange(81)
            x = sym[i] if c == 0 else sym[i].lower()
            f, k = divmod(q, 9)
            row = ((str(8 - f) if f < 8 else '') + x + (str(f) if f else ''))
            spare = 0 if k > 4 else 8
            rows = ['9'] * 9
            rows[k] = row
            rows[spare] = '4%s4' % ('k' if n == 'KING' and c == 0 else 'K') if n == 'KING' else 'k7K'
            s = '/'.join(rows) + ' b - 1'
            b = Board(s)
            v = getattr(C, 'BW'[c] + n)
            M.check(b.piece(q) == v and b.pieces[q] == v and b.piece_type(q) == getattr(C, n) == C.piece_to_piece_type(v), 'py-const-piece', lambda: '%s %s' % (n, s))
            M.check(v in C.PIECES and getattr(C, n) in C.PIECE_TYPES, 'py-const-piece', n)
            name = C.SQUARE_NAMES[q]
            M.check(name == '%d%s' % (f + 1, 'abcdefghi'[k]) and getattr(C, name[1].upper() + name[0]) == q, 'py-const-square', name)
            M.check(C.PIECE_SYMBOLS[getattr(C, n)] == sym[i].lower(), 'py-const-symbol', n)
    for i, n in enumerate(['PAWN', 'LANCE', 'KNIGHT', 'SILVER', 'GOLD', 'BISHOP', 'ROOK']):
        b = Board('4k4/9/9/9/9/9/9/9/4K4 b %s 1' % 'PLNSGBR'[i])
        hp = getattr(C, 'H' + n)
        M.check([k for k, x in enumerate(b.pieces_in_hand[0]) if x] == [hp] and C.HAND_PIECES[hp] == hp and C.hand_piece_to_piece_type(hp) == getattr(C, n), 'py-const-hand', n)
        M.check(C.MAX_PIECES_IN_HAND[hp] == (18, 4, 4, 4, 4, 2, 2)[i], 'py-const-hand', n)
    M.check((C.BLACK, C.WHITE) == (0, 1) == (Board().turn, Board(C.STARTING_SFEN.replace(' b ', ' w ')).turn) and C.MOVE_NONE == 0, 'py-const-side', '')
    M.check((C.DRAW, C.BLACK_WIN, C.WHITE_WIN) == (0, 1, 2), 'py-const-result', '')
    M.check((C.NOT_REPETITION, C.REPETITION_DRAW, C.REPETITION_WIN, C.REPETITION_LOSE, C.REPETITION_SUPERIOR, C.REPETITION_INFERIOR) == (0, 1, 2, 3, 4, 5), 'py-const-repetition', '')
    M.count('constants')


def records():
    """Binary records of positions, laid out as the programs that write such files lay them out."""
    import struct
    R = M.rng
    for _ in range(50):
        code = bytes(R.randrange(256) for _ in range(32))
        ev, mv, res, n = R.randrange(-32768, 32768), R.randrange(1 << 15), R.randrange(3), R.randrange(1, 500)
        x = np.frombuffer(struct.pack('<32shhbB', code, ev, mv, res, 0), C.HuffmanCodedPosAndEval)
        M.check(len(x) == 1 and (bytes(x[0]['hcp']), x[0]['eval'], x[0]['bestMove16'], x[0]['gameResult']) == (code, ev, mv, res), 'py-layout-hcpe', code.hex())
        x = np.frombuffer(struct.pack('<32shHHbB', code, ev, mv, n, -1, 0), C.PackedSfenValue)
        M.check(len(x) == 1 and (bytes(x[0]['sfen']), x[0]['score'], x[0]['move'], x[0]['gamePly'], x[0]['game_result']) == (code, ev, mv, n, -1), 'py-layout-psv', code.hex())
        k, cnt, sc = R.randrange(1 << 64), R.randrange(1 << 16), R.randrange(-1 << 31, 1 << 31)
        x = np.frombuffer(struct.pack('<QhHi', k, mv, cnt, sc), C.BookEntry)
        M.check(len(x) == 1 and (x[0]['key'], x[0]['fromToPro'], x[0]['count'], x[0]['score']) == (k, mv, cnt, sc), 'py-layout-book', str(k))
    for d in (C.HuffmanCodedPos, C.PackedSfen):
        M.check(d.itemsize == 32, 'py-layout', str(d))
    M.count('layouts')


# C12 ------------------------------------------------------------------------
def features(b, r):
    from cshogi import dlshogi
    import cshogi._cshogi as X
    s = r.sfen()
    M.eval()
    M.distinct(s)
    v = Ref(1)
    v.set(r.rotated() if r.turn else s)
    bd, hd = v.board()
    for ny in (False, True):
        dlshogi.use_nyugyoku_features(ny)
        n1, n2 = dlshogi.FEATURES1_NUM, dlshogi.FEATURES2_NUM
        M.check(n1 == 62 and n2 == (119 if ny else 57), 'py-feature-nums', '%d %d' % (n1, n2))
        f1 = np.full((n1, 9, 9), .5, np.float32)
        f2 = np.full((n2, 9, 9), .5, np.float32)
        dlshogi.make_input_features(b, f1, f2)
        w1 = np.zeros((2, 31, 81), np.float32)
        cnt = np.zeros((2, 81), int)
        for a in range(81):
            if bd[a]:
                c, t = bd[a] >> 4, bd[a] & 15
                w1[c, t - 1, a] = 1
                for q in range(81):
                    if v.attacks(a, q):
                        w1[c, 14 + t - 1, q] = 1
                        cnt[c, q] += 1
        for k in range(3):
            w1[:, 28 + k, :] = cnt > k
        w2 = np.zeros((n2, 81), np.float32)
        for c in range(2):
            p = c * 28
            for i, mx in enumerate((8, 4, 4, 4, 4, 2, 2)):
                w2[p:p + min(mx, hd[c][i])] = 1
                p += mx
        w2[56] = v.incheck
        if ny:
            for c in range(2):
                base = 57 + c * 31
                zone = [q for q in range(81) if bd[q] and bd[q] >> 4 == c and (q % 9 < 3 if c == 0 else q % 9 > 5)]
                kin = any(bd[q] & 15 == 8 for q in zone)
                zone = [q for q in zone if bd[q] & 15 != 8]
                pts = sum(5 if bd[q] & 7 in (5, 6) and bd[q] & 15 != 8 else 1 for q in zone) + sum(hd[c][i] * (5 if i >= 5 else 1) for i in range(7))
                w2[base] = kin
                if len(zone) > 0:
                    w2[base + 1 + max(0, 10 - len(zone))] = 1
                rp = (28 if r.turn ^ c == 0 else 27) - pts
                if rp < 20:
                    w2[base + 11 + max(0, rp)] = 1
        M.check((f1.reshape(62, 81) == w1.reshape(62, 81)).all(), 'py-features1', lambda: s + ' planes %s' % np.unique(np.argwhere(f1.reshape(62, 81) != w1.reshape(62, 81))[:, 0]))
        M.check((f2.reshape(n2, 81) == w2).all(), 'py-features2', lambda: s + ' ny=%s planes %s' % (ny, np.unique(np.argwhere(f2.reshape(n2, 81) != w2)[:, 0])))
        M.count('planes', n1 + n2)
    dlshogi.use_nyugyoku_features(False)
    own, _ = r.board()
    for rot in (False, True):
        pl = np.zeros((28, 9, 9), np.float32)
        (b.piece_planes_rotate if rot else b.piece_planes)(pl)
        w = np.zeros((28, 81), np.float32)
        for q, x in enumerate(bd if rot else own):
            if x:
                w[14 * (x >> 4) + (x & 15) - 1, q] = 1
        M.check((pl.reshape(28, 81) == w).all(), 'py-piece_planes', lambda: s + ' rotate=%s' % rot)
    labels = {}
    for m in r.legal():
        l = dlshogi.make_move_label(m, b.turn)
        M.check(0 <= l < 27 * 81 and l not in labels, 'py-label', lambda: s + ' ' + r.usi(m))
        labels[l] = m
        M.check(dlshogi.make_move_label(C.move_rotate(m), b.turn ^ 1) == l, 'py-label-rotate', lambda: s + ' ' + r.usi(m))


# C13 ------------------------------------------------------------------------
def nyugyoku(b, r):
    M.eval()
    M.distinct(r.sfen())
    M.check(b.is_nyugyoku() == r.declare, 'py-nyugyoku', r.sfen())
    M.count('declare.%s' % r.declare)


def run_nyugyoku():
    r = Ref(1)
    rng = M.rng
    L = 'PLNSGBR'
    for g in range(M.cases):
        # king in the zone, about ten own pieces with it, points near the threshold
        c = g & 1
        bd = [[None] * 9 for _ in range(9)]

        def put(rank, ch):
            fs = [f for f in range(9) if bd[rank][f] is None]
            if fs:
                bd[rank][rng.choice(fs)] = ch
        cnt = dict(zip(L, (18, 4, 4, 4, 4, 2, 2)))
        own = (lambda x: x.upper()) if c == 0 else (lambda x: x.lower())
        opp = (lambda x: x.lower()) if c == 0 else (lambda x: x.upper())
        zr = (lambda: rng.randrange(3)) if c == 0 else (lambda: 6 + rng.randrange(3))
        put(zr() if rng.random() < .9 else 4, own('k'))
        put(8 if c == 0 else 0, opp('k'))
        for _ in range(rng.choice([8, 9, 9, 10, 10, 10, 11, 12])):
            x = rng.choice([k for k in 'PLNSGBR' if cnt[k]])
            cnt[x] -= 1
            put(zr(), ('' if x == 'G' else '+') + own(x))
        hands = [dict.fromkeys(L, 0), dict.fromkeys(L, 0)]
        for x in L:
            for _ in range(cnt[x]):
                hands[c if rng.random() < .45 else 1 - c][x] += 1
        rows = []
        for rk in range(9):
            t, e = '', 0
            for f in range(9):
                if bd[rk][f] is None:
                    e += 1
                else:
                    t += (str(e) if e else '') + bd[rk][f]
                    e = 0
            rows.append(t + (str(e) if e else ''))
        hs = ''.join((str(n) if n > 1 else '') + x for x in 'RBGSNLP' for n in [hands[0][x]] if n) + ''.join((str(n) if n > 1 else '') + x.lower() for x in 'RBGSNLP' for n in [hands[1][x]] if n)
        sfen = '/'.join(rows) + ' ' + 'bw'[c] + ' ' + (hs or '-') + ' 1'
        M.crumb('nyugyoku ' + sfen)
        if not r.set(sfen) or not r.valid:
            M.count('skip')
            continue
        nyugyoku(Board(sfen), r)
        M.sample(sfen)


# C04 (Python surface: default and explicit limits) ---------------------------
def run_repetition():
    rng = M.rng
    r = Ref(M.seed * 31 + M.shard)
    for g in range(M.cases):
        start_position(r, rng, g)
        b = Board(r.sfen())
        hist = [(r.sfen().rsplit(' ', 1)[0], False)]
        trail = r.sfen()
        stack = []
        for _ in range(40):
            ms = r.legal()
            if not ms:
                break
            M.crumb('rep ' + trail)
            m = None
            if stack and rng.random() < .7:
                back = [x for x in ms if fields(x)[0] is not None and fields(x)[4] == 0 and not fields(x)[2] and len(stack) > 1 and fields(stack[-2])[0] == fields(x)[1] and fields(stack[-2])[1] == fields(x)[0]]
                if back:
                    m = rng.choice(back)
            m = m or r.pick(6)
            pre = {k: b.move_is_draw(m, k) if k else b.move_is_draw(m) for k in (None, 4, 1000)}
            b.push(m)
            r.apply(m)
            stack.append(m)
            trail += ' ' + C.move_to_usi(m)
            hist.append((r.sfen().rsplit(' ', 1)[0], r.incheck))
            M.eval()
            n = len(hist) - 1
            want = C.NOT_REPETITION
            where = 0
            for i in range(4, n + 1, 2):
                if hist[n - i][0] == hist[n][0]:
                    opp = all(hist[k][1] for k in range(n, n - i, -2))
                    me = all(hist[k][1] for k in range(n - 1, n - i, -2))
                    want = C.REPETITION_LOSE if me else C.REPETITION_WIN if opp else C.REPETITION_DRAW
                    where = i
                    break
            got = b.is_draw()
            M.count('verdict.%d' % got)
            sup = got in (C.REPETITION_SUPERIOR, C.REPETITION_INFERIOR)
            if not sup:
                M.check(got == want, 'py-is_draw', lambda: 'want %s got %s | %s' % (want, got, trail))
                M.check(pre[None] == want and pre[1000] == want, 'py-move_is_draw', lambda: 'want %s got %s | %s' % (want, pre, trail))
                M.check(b.is_draw(4) == (want if where == 4 else C.NOT_REPETITION), 'py-is_draw-limit', trail)
                M.check(pre[4] == (want if where == 4 else C.NOT_REPETITION), 'py-move_is_draw-limit', trail)
        M.distinct(trail)
        M.sample(trail[:200])


# C08 ------------------------------------------------------------------------
def mate(b, r):
    s = r.sfen()
    f = Board(s)
    M.eval()
    m1 = f.mate_move_in_1ply()
    if m1:
        M.check(m1 in r.legal(), 'py-mate1-illegal', s)
        r.apply(m1)
        M.check(r.ismate, 'py-mate1', s)
        r.undo()
        M.count('mate1')
        M.distinct(s)
    elif r.incheck:
        M.check(r.mate_or(1) != 1, 'py-mate1-missed-incheck', s)
    if M.rng.random() < .1:
        m3 = f.mate_move(3)
        if m3:
            M.check(m3 in r.legal(), 'py-mate3-illegal', s)
            r.apply(m3)
            M.check(r.incheck and r.mate_and(2, 100000) != 0, 'py-mate3', s)
            r.undo()
            M.count('mate3')
    if r.incheck:
        got = f.is_mate(2)
        if got:
            M.check(r.mate_and(2, 100000) != 0, 'py-is_mate', s)
            M.count('is_mate')
        # plies that are no search depth are refused (the search would not terminate)
        if M.rng.random() < .1:
            for fn, n in (('is_mate', 0), ('is_mate', -2), ('is_mate', 3), ('mate_move', 1), ('mate_move', 4), ('mate_move', -1)):
                try:
                    got = getattr(f, fn)(n)
                except Exception:
                    M.count('ply_refused')
                else:
                    M.check(False, 'py-mate-ply', lambda: '%s(%d) returned %r | %s' % (fn, n, got, s))
    M.check(f.sfen() == s, 'py-mate-disturbs', s)


MODES = {'movegen': lambda: walk(movegen), 'legality': lambda: walk(legality, 12), 'state': run_state, 'repetition': run_repetition, 'codec': lambda: (records(), walk(codec)),
         'keys': lambda: walk(keys), 'moves': lambda: (constants(), walk(moves)), 'features': lambda: walk(features, 8), 'nyugyoku': run_nyugyoku, 'mate': lambda: walk(mate, 120)}
MODES[M.mode]()
M.finish()
