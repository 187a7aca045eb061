"""Monitors of what a board looks like to people (diagrams, SVG, CSA dump, PGN moves) and of the gym environments."""
import os
import datetime
import re
import shutil
import tempfile

import numpy as np

import cshogi as C
from cshogi import KIF, PGN, Board
from core_util import BOARD_NAMES, FULL, HNAME, KANJI, KNAME, HAND, NUM, fields, read_svg, ref_board_of
from cycles import perpetual_entered, perpetual_from, poskey, shuffle_from
from mon import Mon
from refm import Ref, start_position

M = Mon()
R = M.rng
TMP = tempfile.mkdtemp(prefix='ren_')


def read_hand(s):
    h = [0] * 7
    if s != 'なし':
        for x in s.split('　'):
            h[HNAME.index(x[0])] += NUM[x[1:]]
    return h


def read_bod(s):
    """Board, hands, side to move and the last line of a diagram."""
    L = s.split('\n')
    bd, hand, turn, last = [0] * 81, [None, None], 0, None
    row = 0
    for x in L:
        if x.startswith('後手の持駒：'):
            hand[1] = read_hand(x[6:])
        elif x.startswith('先手の持駒：'):
            hand[0] = read_hand(x[6:])
        elif x.startswith('|'):
            assert x[19] == '|' and x[20] == KANJI[row], x
            for c in range(9):
                a, b = x[1 + 2 * c:3 + 2 * c]
                if b != '・':
                    bd[(8 - c) * 9 + row] = KNAME.index(b) + 16 * (a == 'v')
                assert a in ' v', x
            row += 1
        elif x == '後手番':
            turn = 1
        elif x.startswith('手数＝'):
            last = x
        else:
            assert x in ('  ９ ８ ７ ６ ５ ４ ３ ２ １', '+---------------------------+'), x
    assert row == 9
    return bd, hand, turn, last


def read_csa(s):
    L = [x for x in s.split('\n') if x and x[0] != "'"]
    bd, hand, turn = [0] * 81, [[0] * 7, [0] * 7], None
    for x in L:
        if re.match(r'P[1-9]', x):
            r = int(x[1]) - 1
            body = x[2:].ljust(27)
            for c in range(9):
                t = body[c * 3:c * 3 + 3]
                if t != ' * ':
                    bd[(8 - c) * 9 + r] = BOARD_NAMES.index(t[1:]) + 16 * (t[0] == '-')
        elif x[:2] in ('P+', 'P-'):
            for k in range(2, len(x), 4):
                assert x[k:k + 2] == '00'
                hand[x[1] == '-'][['FU', 'KY', 'KE', 'GI', 'KI', 'KA', 'HI'].index(x[k + 2:k + 4])] += 1
        elif x in '+-':
            turn = '+-'.index(x)
    return bd, hand, turn


def pgn_of(m):
    fr, to, pro, pt, _ = fields(m)
    sq = lambda s: 'ihgfedcba'[s // 9] + str(9 - s % 9)
    if fr is None:
        return '.PLNSBRG'[pt] + '@' + sq(to)
    return ['', 'P', 'L', 'N', 'S', 'B', 'R', 'G', 'K', '+P', '+L', '+N', '+S', '+B', '+R'][pt] + sq(fr) + sq(to) + ('+' if pro else '')


def look(b, ref, hist, n0):
    sfen = ref.sfen()
    bd, hand, turn = ref_board_of(sfen)
    want = (bd, hand, turn)
    before = (b.sfen(), b.history, b.zobrist_hash(), b.move_number, b.is_draw())
    ctx = lambda: '%s after %s' % (sfen, hist[-6:])
    M.eval()
    M.distinct(sfen)
    M.crumb(sfen)
    try:
        s = b.to_bod()
        g = read_bod(s)
        M.check(g[:3] == want, 'bod', lambda: 'to_bod of %s is\n%s' % (ctx(), s))
        last = hist[-1] if hist else None
        if last:
            fr, to, pro, pt, cap = fields(last)
            x = g[3] or ''
            for k, v in (('成銀', '全'), ('成桂', '圭'), ('成香', '杏'), ('竜', '龍'), ('王', '玉')):
                x = x.replace(k, v) if pt > 7 else x
            side = '▲△'[1 - turn]
            same = len(hist) > 1 and hist[-2] and fields(hist[-2])[1] == to
            m = re.match(r'手数＝(\d+)　(.)(.)(.)(同)?　?([%s])(\S*)　まで$' % ''.join(KNAME[1:]), x)
            ok = m and int(m[1]) == n0 + len(hist) - 1 and m[2] == side and m[3] + m[4] == FULL[to // 9] + KANJI[to % 9] and bool(m[5]) == bool(same) and m[6] == KNAME[pt] \
                and (m[7].endswith('成') and not m[7].endswith('不成')) == pro and (m[7].endswith('打') <= (fr is None))
            M.check(ok, 'bod.last', lambda: 'to_bod of %s ends with %r' % (ctx(), x))
            M.count('bod.last')
            if same:
                M.count('bod.same')
        else:
            M.check(g[3] is None, 'bod.last', lambda: 'to_bod of %s ends with %r although no move was played last' % (ctx(), g[3]))
            M.count('bod.first')
        s = KIF.board_to_bod(b)
        g = read_bod(s)
        M.check(g == want + (None,), 'bod', lambda: 'board_to_bod of %s is\n%s' % (ctx(), s))
        for f in (repr, str):
            s = f(b)
            M.check(read_csa(s) == want, 'repr', lambda: 'the text of %s is\n%s' % (ctx(), s))
        mv = last if last and R.random() < .7 else None
        s = b.to_svg(mv, R.choice([1.0, 2.5])) if mv is not None or R.random() < .5 else b.to_svg()
        sb, sh, marks = read_svg(s)
        M.check((sb, sh) == want[:2], 'svg', lambda: 'the picture of %s shows %r %r' % (ctx(), sb, sh))
        wm = []
        if mv is not None:
            fr, to = fields(mv)[:2]
            wm = [('#f6b94d', to)] + ([('#fdf0e3', fr)] if fr is not None else [])
            M.count('svg.lastmove')
        M.check(marks == wm, 'svg.marks', lambda: 'the picture of %s marks %r instead of %r' % (ctx(), marks, wm))
        sb, sh, marks = read_svg(b._repr_svg_())
        M.check((sb, sh) == want[:2], 'svg', lambda: 'the picture of %s shows %r %r' % (ctx(), sb, sh))
        M.maxi('hand', max(map(sum, hand)))
    except Exception as x:
        M.violation('exception', '%r for %s' % (x, ctx()))
    after = (b.sfen(), b.history, b.zobrist_hash(), b.move_number, b.is_draw())
    M.check(before == after, 'changed', lambda: 'showing the board changed %r into %r' % (before, after))
    # PGN texts
    seen = {}
    for m in b.legal_moves:
        t = PGN.move_to_san(m)
        M.check(t == pgn_of(m), 'san', lambda: '%s in %s is written %r instead of %r' % (C.move_to_usi(m), sfen, t, pgn_of(m)))
        M.check(t not in seen, 'san.same', lambda: '%s and %s in %s are both written %r' % (C.move_to_usi(m), C.move_to_usi(seen[t]), sfen, t))
        seen[t] = m
    M.count('san', len(seen))


def pgn_file(ref, i):
    """Files of PGN games: read back by a reader of its own."""
    path = os.path.join(TMP, 'x.pgn')
    if os.path.exists(path):
        os.remove(path)
    want, x = [], None
    for k in range(R.choice([1, 1, 2, 3])):
        ref.start()
        ms = []
        for _ in range(R.choice([0, 1, 2, 7, 40, 150])):
            m = ref.pick(R.randrange(7))
            if not m:
                break
            ms.append(m)
            ref.apply(m)
        names = [R.choice(['A', 'Player One', 'x' * 40]) + str(R.randrange(9)) for _ in range(2)]
        result = R.choice([C.BLACK_WIN, C.WHITE_WIN, C.DRAW, None])
        kw = {}
        if R.random() < .5:
            kw['event'] = 'Event %d' % R.randrange(99)
        if R.random() < .5:
            kw['site'] = 'Site %d' % R.randrange(99)
        if R.random() < .5:
            kw['starttime'] = datetime.datetime(R.randrange(1900, 2100), R.randrange(1, 13), R.randrange(1, 29))
        if R.random() < .5:
            kw['round'] = R.randrange(1, 300)
        if x is None or R.random() < .5:
            if x is None:
                if R.random() < .5:
                    x = PGN.Exporter(path, append=R.random() < .5)
                else:
                    x = PGN.Exporter()
                    x.open(path)
            else:
                x.close()
                if R.random() < .3:
                    x, want = PGN.Exporter(path), []
                else:
                    x = PGN.Exporter(path, append=True)
        days = [datetime.date.today()]
        x.tag_pair(names, result, **kw)
        days.append(datetime.date.today())
        if R.random() < .8:
            x.movetext(ms)
        else:
            ms = None
        res = {C.BLACK_WIN: '1-0', C.WHITE_WIN: '0-1', C.DRAW: '1/2-1/2'}.get(result, '*')
        days = ['%04d.%02d.%02d' % (d.year, d.month, d.day) for d in ([kw['starttime']] if 'starttime' in kw else days)]
        want.append((kw.get('event', '?'), kw.get('site', '?'), days, str(kw.get('round', 1)), names[0], names[1], res, ms))
    with open(path) as f:        # what has been written is in the file at once
        text = f.read()
    x.close()
    parts = re.split(r'(?=\[Event )', text)[1:]
    if not M.check(len(parts) == len(want), 'pgn.games', lambda: '%d games instead of %d in\n%s' % (len(parts), len(want), text)):
        return
    for p, w in zip(parts, want):
        lines = p.split('\n')
        tags = [re.match(r'\[(\w+) "(.*)"\]$', z) for z in lines[:7]]
        ok = all(tags) and [z[1] for z in tags] == ['Event', 'Site', 'Date', 'Round', 'White', 'Black', 'Result'] and lines[7] == ''
        ok = ok and [z[2] for z in tags] in [[w[0], w[1], d] + list(w[3:7]) for d in w[2]]
        M.check(ok, 'pgn.tags', lambda: '%r instead of %r' % (lines[:8], w[:7]))
        body = []
        for k, m in enumerate(w[7] or []):
            body += (['%d.' % (k // 2 + 1)] if k % 2 == 0 else []) + [pgn_of(m)]
        body += [w[6]] if w[7] is not None else []
        M.check(' '.join(lines[7:]).split() == body, 'pgn.moves', lambda: '%r instead of %r' % (lines[7:], body))
        M.check(all(len(z) <= 81 for z in lines[7:]), 'pgn.width', lambda: p)
    M.count('pgn.files')


def render():
    ref = Ref(M.seed * 31 + M.shard)
    for i in range(M.cases):
        if i % 3 == 0:
            pgn_file(ref, i)
        start_position(ref, R, i)
        sfen = ref.sfen()
        b = Board(sfen)
        n0 = b.move_number
        hist = []
        pol = R.randrange(7)
        look(b, ref, hist, n0)
        for _ in range(R.choice([3, 10, 25])):
            if R.random() < .06 and not ref.incheck and not (hist and hist[-1] is None):
                b.push_pass()
                ref.pass_()
                hist.append(None)
                n0 -= 0 if b.move_number == n0 + len(hist) else 1
                M.count('pass')
                if R.random() < .5:
                    look(b, ref, hist, n0)
                continue
            m = ref.pick(pol if R.random() < .6 else 0)
            if not m:
                break
            u = ref.usi(m)
            m = b.move_from_usi(u)
            b.push(m)
            ref.apply({ref.usi(x): x for x in ref.legal()}[u])
            hist.append(m)
            if R.random() < .4:
                look(b, ref, hist, n0)
        # the diagram in a KIF file
        p = os.path.join(TMP, 'a.kifu')
        e = KIF.Exporter(p)
        e.header(['x', 'y'], handicap=b if R.random() < .5 else 'sfen ' + b.sfen())
        e.close()
        L = open(p, encoding='utf-8').read().split('\n')
        d = [x for x in L if x.startswith(('|', '先手の持駒', '後手の持駒', '後手番'))]
        g = read_bod('\n'.join(d))
        M.check(g[:3] == tuple(ref_board_of(ref.sfen())), 'kif.diagram', lambda: 'the KIF header of %s is\n%s' % (ref.sfen(), '\n'.join(L)))
        M.count('kif.diagram')
        M.sample(sfen)


# ---------------------------------------------------------------- gym
class Track:
    """What an environment should say, from the rules."""

    def __init__(self, r, sfen=None):
        self.r = r
        self.begin(sfen)

    def begin(self, sfen):
        if sfen:
            self.r.set(sfen)
        else:
            self.r.start()
        self.hist = [poskey(self.r.sfen())]
        self.checks = []
        self.moves = []

    def step(self, m):
        """(reward, done, verdict or None if not judged)"""
        mover = self.r.turn
        self.r.apply(m)
        self.checks.append(self.r.incheck)
        self.moves.append(m)
        k = poskey(self.r.sfen())
        self.hist.append(k)
        if self.hist.count(k) == 4:
            n = len(self.checks)
            v = []
            for a in (max(j for j in range(n) if self.hist[j] == k), self.hist.index(k)):
                mine = all(self.checks[j] for j in range(n - 1, a - 1, -2))
                theirs = all(self.checks[j] for j in range(n - 2, a - 1, -2))
                v.append(-1.0 if mine else 1.0 if theirs else 0.0)
            if v[0] != v[1]:
                return None, True, None
            return v[0], True, {-1.0: C.REPETITION_WIN, 1.0: C.REPETITION_LOSE, 0.0: C.REPETITION_DRAW}[v[0]]
        if not self.r.legal():
            return 1.0, True, 'none'
        return 0.0, False, 'none'


def pick_move(t, state):
    """A reference move: random play, then a cycle."""
    r = t.r
    if state.get('plan'):
        u = state['plan'].pop(0)
        d = {r.usi(x): x for x in r.legal()}
        if u in d:
            return d[u]
        state['plan'] = []
    if R.random() < state['cyc'] and not r.incheck:
        k = R.random()
        if k < .4:
            c = perpetual_entered(r)
            if c:
                state['plan'] = c[:1] + c[1] * 3
                M.count('cycle')
                return pick_move(t, state)
        c = perpetual_from(r) if k < .7 else shuffle_from(r, R)
        if c:
            state['plan'] = c * 3
            if R.random() < .2:
                state['plan'] = c * 2      # not enough
            M.count('cycle')
            return pick_move(t, state)
    if R.random() < .3:
        for m in r.legal():
            r.apply(m)
            ok = r.ismate
            r.undo()
            if ok:
                return m
    return r.pick(state['pol'] if R.random() < .6 else 0)


def judge(name, got, want, t):
    ctx = lambda: '%s from %s after %s' % (name, t.hist[0], [hex(m) for m in t.moves[-14:]])
    if want[0] is None:
        M.count('ambiguous')
        M.check(got[1] is True or got[1] == 1, 'gym.done', ctx)
        return
    M.check(got[0] == want[0] and bool(got[1]) == want[1], 'gym.reward', lambda: '%r instead of %r: %s' % (got, want, ctx()))
    if want[2] != 'none':
        M.check(got[2] == want[2], 'gym.draw', lambda: '%r instead of %r: %s' % (got, want, ctx()))
        M.count('rep.%g' % want[0])
    elif want[1]:
        M.count('mate')
    else:
        M.check(not got[2], 'gym.draw', lambda: '%r instead of %r: %s' % (got, want, ctx()))


def gym():
    from cshogi.gym_shogi.envs import ShogiEnv, ShogiVecEnv
    ref = Ref(M.seed * 31 + M.shard)
    env = ShogiEnv()
    for i in range(M.cases):
        start_position(ref, R, i)
        sfen = ref.sfen()
        how = R.choice(['none', 'sfen', 'hcp'])
        if how == 'none':
            b = env.reset()
            sfen = None
        elif how == 'sfen':
            b = env.reset(sfen=sfen)
        else:
            h = np.empty(1, C.HuffmanCodedPos)
            Board(sfen).to_hcp(h)
            b = env.reset(hcp=h)
        t = Track(ref, sfen)
        M.count('reset.' + how)
        M.check(poskey(b.sfen()) == t.hist[0] and b is env.board, 'gym.reset', lambda: 'reset to %s gives %s' % (t.hist[0], b.sfen()))
        state = {'cyc': R.choice([0, .1, .5]), 'pol': R.randrange(7)}
        M.crumb(t.hist[0])
        for _ in range(R.choice([5, 40, 120])):
            m = pick_move(t, state)
            if not m:
                break
            M.eval()
            mv = env.board.move_from_usi(ref.usi(m))
            before = env.board.sfen()
            want = t.step(m)
            got = env.step(mv)
            judge('ShogiEnv', got, want, t)
            M.check(poskey(env.render('sfen')) == t.hist[-1] and env.moves[-1] == mv and len(env.moves) == len(t.moves), 'gym.state', lambda: 'after %s on %s the environment shows %s' % (hex(mv), before, env.render('sfen')))
            if R.random() < .05:
                M.check(read_csa(env.render('ansi')) == tuple(ref_board_of(ref.sfen())), 'gym.ansi', lambda: ref.sfen())
                sb, sh, marks = read_svg(env.render('svg'))
                M.check((sb, sh) == tuple(ref_board_of(ref.sfen()))[:2] and marks and marks[0][1] == fields(m)[1], 'gym.svg', lambda: ref.sfen())
                M.check(env.render('human') is env.board, 'gym.human', lambda: ref.sfen())
                M.count('rendered')
            if R.random() < .03:
                # an illegal move is refused and changes nothing
                bad = R.choice([x for x in (R.randrange(1, 1 << 24) for _ in range(4)) if not env.board.is_legal(x)] or [1])
                s0 = env.board.sfen()
                try:
                    env.step(bad)
                    M.violation('gym.illegal', 'the illegal move %s is accepted on %s' % (hex(bad), s0))
                except AssertionError:
                    pass
                M.check(env.board.sfen() == s0 and len(env.moves) == len(t.moves), 'gym.illegal', lambda: 'the illegal move %s changes %s' % (hex(bad), s0))
                M.count('illegal')
            if want[1]:
                break
        M.distinct((t.hist[0], tuple(t.moves)))
        r = env.step(0)
        M.check(r[0] == -1.0 and r[1] and poskey(env.board.sfen()) == t.hist[-1], 'gym.resign', lambda: '%r' % (r,))
        # several games at once
        if i % 3 == 0:
            n = R.randrange(1, 6)
            ve = ShogiVecEnv(n)
            ve.reset()
            ts = [Track(Ref(R.randrange(10 ** 6)), None) for _ in range(n)]
            st = [{'cyc': R.choice([0, .3]), 'pol': R.randrange(7)} for _ in range(n)]
            for _ in range(R.choice([5, 60])):
                ms = [pick_move(t, s) for t, s in zip(ts, st)]
                resign = [R.random() < .02 or not m for m in ms]
                mv = [0 if q else ve.envs[k].board.move_from_usi(ts[k].r.usi(m)) for k, (m, q) in enumerate(zip(ms, resign))]
                rw, dn, dr = ve.step(mv)
                for k in range(n):
                    want = (-1.0, True, 'none') if resign[k] else ts[k].step(ms[k])
                    judge('game %d of %d' % (k, n), (rw[k], dn[k], dr[k]), want, ts[k])
                    if want[1]:
                        ts[k].begin(None)
                        st[k]['plan'] = []
                        M.count('vec.reset')
                shown = ve.render()
                M.check([poskey(x) for x in shown] == [t.hist[-1] for t in ts], 'gym.vec', lambda: '%r instead of %r' % (shown, [t.hist[-1] for t in ts]))
                M.eval(n)
            M.count('vec')


if __name__ == '__main__':
    try:
        {'render': render, 'gym': gym}[M.mode]()
    finally:
        shutil.rmtree(TMP, ignore_errors=True)
    M.finish()
